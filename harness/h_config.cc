#include "libspu/spu.h"
#include "libspu/core/config.h"
#include "libspu/spu.pb.h"
namespace vh {
spu::RuntimeConfig cfg() { return spu::RuntimeConfig{}; }
spu::ClientSSLConfig ssl() { return spu::ClientSSLConfig{}; }
spu::TTPBeaverConfig ttp() { return spu::TTPBeaverConfig{}; }
spu::CompilerOptions copts() { return spu::CompilerOptions{}; }
spu::CompilationSource csrc() { return spu::CompilationSource{}; }
spu::ExecutableProto exec() { return spu::ExecutableProto{}; }
spu::pb::RuntimeConfig pbcfg() { return spu::pb::RuntimeConfig(); }
bool eqco(const spu::CompilerOptions& a, const spu::CompilerOptions& b) { return a == b; }
bool eqcs(const spu::CompilationSource& a, const spu::CompilationSource& b) { return a == b; }
spu::RuntimeConfig mk3(spu::ProtocolKind p, spu::FieldType f, int64_t n) { return spu::RuntimeConfig(p, f, n); }
std::string ser(const spu::RuntimeConfig& c) { return c.SerializeAsString(); }
bool parse(spu::RuntimeConfig& c, std::string_view d) { return c.ParseFromString(d); }
spu::pb::RuntimeConfig toproto(const spu::RuntimeConfig& c) { return c.ToProto(); }
spu::RuntimeConfig fromproto(const spu::pb::RuntimeConfig& c) { return spu::RuntimeConfig(c); }
std::string serco(const spu::CompilerOptions& c) { return c.SerializeAsString(); }
bool parseco(spu::CompilerOptions& c, std::string_view d) { return c.ParseFromString(d); }
std::string serex(const spu::ExecutableProto& c) { return c.SerializeAsString(); }
bool parseex(spu::ExecutableProto& c, std::string_view d) { return c.ParseFromString(d); }
}  // namespace vh
