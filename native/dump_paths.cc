#include "common.h"
#include <map>
#include "libspu/device/utils/debug_dump_constant.h"
using namespace vn;
using namespace spu::device;
static std::string rname() {
  static const char al[] = "ab_.0123-x chunkmeta";
  std::string s;
  size_t n = 1 + below(6);
  for (size_t i = 0; i < n; i++) s += al[below(sizeof(al) - 1)];
  if (below(4) == 0) s += "_" + std::to_string(below(12));
  if (below(8) == 0) s += ".meta";
  if (below(8) == 0) s += ".chunk";
  if (s == "." || s == "..") s += "x";
  return s;
}
int main(int argc, char** argv) {
  init(argc, argv);
  std::map<std::string, std::string> owner;   // path -> what it stands for
  std::map<std::string, std::string> used;
  auto claim = [&](const std::string& path, const std::string& what) {
    auto it = owner.emplace(path, what).first;
    if (it->second != what) fail("collision", "one path for two things: " + path + " is " + it->second + " and " + what);
    if (owner.size() > 300000) owner.clear();
  };
  while (time_left()) {
    std::filesystem::path base = below(2) ? "snap" : "/tmp/dump/x.y";
    std::string bs = base.string();
    int64_t rank = below(3) ? below(14) : (int64_t)(rnd() >> 1), chunk = below(3) ? below(130) : (int64_t)(rnd() >> 1);
    auto name = rname();
    std::string id = bs + " rank=" + std::to_string(rank) + " name=\"" + name + "\" chunk=" + std::to_string(chunk);
    setcase("paths " + id);
    auto folder = getRankFolder(base, rank), cfg = getConfigFilePath(base), code = getCodeFilePath(base), meta = getMetaFilePath(base, rank, name), ch = getValueChunkFilePath(base, rank, name, chunk);
    claim(folder.string(), "folder " + bs + " " + std::to_string(rank));
    claim(cfg.string(), "config " + bs);
    claim(code.string(), "code " + bs);
    claim(meta.string(), "meta " + bs + " " + std::to_string(rank) + " " + name);
    claim(ch.string(), "chunk " + bs + " " + std::to_string(rank) + " " + name + " #" + std::to_string(chunk));
    if (folder.parent_path() != base || cfg.parent_path() != base || code.parent_path() != base) fail("base", id + ": not directly under the snapshot folder");
    if (meta.parent_path() != folder || ch.parent_path() != folder) fail("folder", id + ": not in the folder of its rank: " + meta.string() + " " + ch.string());
    if (meta.filename().extension() != getMetaExtension() || meta.filename().stem().string() != name) fail("meta", id + ": the name is not recovered from " + meta.string());
    if (ch.filename().extension() == getMetaExtension()) fail("chunkext", id + ": chunk looks like metadata: " + ch.string());
    count(id);
  }
  return finish();
}
