#pragma once
#include "absl/strings/string_view.h"
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <vector>
#include <atomic>
#include "absl/strings/numbers.h"
#include "absl/strings/escaping.h"
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
namespace yacl::link {
struct Statistics { std::atomic<size_t> sent_actions{0}, sent_bytes{0}, recv_actions{0}, recv_bytes{0}; };
struct ContextDesc {
  static constexpr char kDefaultId[] = "root";
  struct Party { std::string id, host; };
  std::string id; std::vector<Party> parties; uint32_t recv_timeout_ms{30000};
};
// in-process mesh of FIFO channels
class VerifMesh {
 public:
  std::mutex m; std::condition_variable cv;
  std::map<std::string, std::deque<Buffer>> q;
  bool dead = false;
};
class Context {
  ContextDesc desc_; size_t rank_; std::shared_ptr<VerifMesh> mesh_; size_t child_{0};
  std::string id_; size_t n_; std::vector<size_t> map_;
  std::shared_ptr<Statistics> stats_{std::make_shared<Statistics>()};
  std::string key(size_t s, size_t d) const { return id_ + ":" + std::to_string(s) + ">" + std::to_string(d); }
 public:
  Context(ContextDesc d, size_t rank, size_t n, std::shared_ptr<VerifMesh> mesh, std::string id)
      : desc_(std::move(d)), rank_(rank), mesh_(std::move(mesh)), id_(std::move(id)), n_(n) {}
  std::string Id() const { return id_; }
  size_t WorldSize() const { return n_; }
  size_t Rank() const { return rank_; }
  std::string PartyIdByRank(size_t r) const { return std::to_string(r); }
  size_t PrevRank(size_t stride = 1) const { return (rank_ + n_ - stride % n_) % n_; }
  size_t NextRank(size_t stride = 1) const { return (rank_ + stride) % n_; }
  void SendAsync(size_t dst, ByteContainerView v, std::string_view) { push(dst, Buffer(v)); }
  void SendAsync(size_t dst, Buffer&& v, std::string_view) { push(dst, std::move(v)); }
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view) { push(dst, Buffer(v)); }
  void Send(size_t dst, ByteContainerView v, std::string_view) { push(dst, Buffer(v)); }
  Buffer Recv(size_t src, std::string_view) {
    std::unique_lock<std::mutex> lk(mesh_->m);
    auto& q = mesh_->q[key(src, rank_)];
    bool ok = mesh_->cv.wait_for(lk, std::chrono::seconds(20), [&] { return !q.empty() || mesh_->dead; });
    if (!ok || q.empty()) { mesh_->dead = true; mesh_->cv.notify_all(); throw IoError("recv timeout/deadlock"); }
    Buffer b = std::move(q.front()); q.pop_front();
    stats_->recv_actions++; stats_->recv_bytes += b.size();
    return b;
  }
  void push(size_t dst, Buffer b) {
    std::lock_guard<std::mutex> lk(mesh_->m);
    YACL_ENFORCE(dst < n_, "bad dst");
    stats_->sent_actions++; stats_->sent_bytes += b.size();
    mesh_->q[key(rank_, dst)].push_back(std::move(b));
    mesh_->cv.notify_all();
  }
  void Abort() { std::lock_guard<std::mutex> lk(mesh_->m); mesh_->dead = true; mesh_->cv.notify_all(); }
  void ConnectToMesh() {}
  void WaitLinkTaskFinish() {}
  void SetThrottleWindowSize(size_t) {}
  void SetRecvTimeout(uint64_t) {}
  uint64_t GetRecvTimeout() const { return 0; }
  std::shared_ptr<const Statistics> GetStats() const { return stats_; }
  std::unique_ptr<Context> Spawn(const std::string& id = "") {
    std::string cid = id_ + "-" + (id.empty() ? std::to_string(child_++) : id);
    return std::make_unique<Context>(desc_, rank_, n_, mesh_, cid);
  }
};
}
