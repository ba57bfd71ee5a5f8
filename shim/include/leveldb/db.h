#pragma once
#include <map>
#include <string>
namespace leveldb {
struct Slice { const char* d; size_t n; Slice(const char* p, size_t s) : d(p), n(s) {} Slice(const std::string& s) : d(s.data()), n(s.size()) {} std::string ToString() const { return std::string(d, n); } };
struct Status { bool ok_{true}; bool ok() const { return ok_; } std::string ToString() const { return ok_ ? "OK" : "err"; } };
enum class CompressionType { kNoCompression = 0 };
struct ReadOptions { bool fill_cache{true}; };
struct WriteOptions {};
struct Options { bool create_if_missing{false}; bool error_if_exists{false}; CompressionType compression{CompressionType::kNoCompression}; size_t write_buffer_size{0}; size_t max_file_size{0}; size_t block_size{0}; };
class DB {
  std::map<std::string, std::string> m_;
 public:
  static Status Open(const Options&, const std::string&, DB** d) { *d = new DB(); return {}; }
  Status Get(const ReadOptions&, const Slice& k, std::string* v) { auto it = m_.find(k.ToString()); if (it == m_.end()) return {false}; *v = it->second; return {}; }
  Status Put(const WriteOptions&, const Slice& k, const Slice& v) { m_[k.ToString()] = v.ToString(); return {}; }
  Status Delete(const WriteOptions&, const Slice& k) { m_.erase(k.ToString()); return {}; }
};
}
