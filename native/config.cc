#include "common.h"
#include "libspu/core/config.h"
#include "libspu/spu.h"
#include "libspu/spu.pb.h"
using namespace vn;
using namespace spu;
static std::string rs() { static const char* t[] = {"", "ab", "host:1", "/tmp/x", "k\n\x01z"}; return t[below(5)]; }
static int64_t ri() { return below(3) ? (int64_t)below(40) : (int64_t)(rnd() >> 1); }
static bool rb() { return below(2); }
static RuntimeConfig rcfg() {
  RuntimeConfig c;
  c.protocol = ProtocolKind(below(7));
  c.field = FieldType(below(4));
#define I(x) c.x = below(3) ? (decltype(c.x))ri() : 0;
#define B(x) c.x = rb();
  I(fxp_fraction_bits) I(max_concurrency) I(public_random_seed) I(share_max_chunk_size) I(quick_sort_threshold) I(fxp_div_goldschmidt_iters) I(fxp_exp_iters) I(fxp_log_iters) I(fxp_log_orders)
  I(sine_cosine_iters) I(experimental_inter_op_concurrency) I(experimental_exp_prime_offset)
  B(enable_action_trace) B(enable_type_checker) B(enable_pphlo_trace) B(enable_runtime_snapshot) B(enable_pphlo_profile) B(enable_hal_profile) B(enable_lower_accuracy_rsqrt) B(trunc_allow_msb_error)
  B(experimental_disable_mmul_split) B(experimental_enable_inter_op_par) B(experimental_enable_intra_op_par) B(experimental_disable_vectorization) B(experimental_enable_colocated_optimization)
  B(experimental_enable_exp_prime) B(experimental_exp_prime_disable_lower_bound) B(experimental_exp_prime_enable_upper_bound)
  c.snapshot_dump_dir = rs();
  c.sort_method = RuntimeConfig::SortMethod(below(4));
  c.fxp_exp_mode = RuntimeConfig::ExpMode(below(4));
  c.fxp_log_mode = RuntimeConfig::LogMode(below(4));
  c.sigmoid_mode = RuntimeConfig::SigmoidMode(below(4));
  c.beaver_type = RuntimeConfig::BeaverType(below(3));
  c.cheetah_2pc_config = CheetahConfig(rb(), rb(), CheetahOtKind(below(3)));
  if (rb()) {
    c.ttp_beaver_config = std::make_shared<TTPBeaverConfig>(rs(), (int32_t)ri(), rs(), rs(), rs(), nullptr);
    if (rb()) c.ttp_beaver_config->ssl_config = std::make_shared<ClientSSLConfig>(rs(), rs(), rs(), (int32_t)ri());
  }
  return c;
}
#define FIELDS(F) F(protocol) F(field) F(fxp_fraction_bits) F(max_concurrency) F(enable_action_trace) F(enable_type_checker) F(enable_pphlo_trace) F(enable_runtime_snapshot) F(snapshot_dump_dir) \
  F(enable_pphlo_profile) F(enable_hal_profile) F(public_random_seed) F(share_max_chunk_size) F(sort_method) F(quick_sort_threshold) F(fxp_div_goldschmidt_iters) F(fxp_exp_mode) F(fxp_exp_iters) \
  F(fxp_log_mode) F(fxp_log_iters) F(fxp_log_orders) F(sigmoid_mode) F(enable_lower_accuracy_rsqrt) F(sine_cosine_iters) F(beaver_type) F(trunc_allow_msb_error) F(experimental_disable_mmul_split) \
  F(experimental_enable_inter_op_par) F(experimental_enable_intra_op_par) F(experimental_disable_vectorization) F(experimental_inter_op_concurrency) F(experimental_enable_colocated_optimization) \
  F(experimental_enable_exp_prime) F(experimental_exp_prime_offset) F(experimental_exp_prime_disable_lower_bound) F(experimental_exp_prime_enable_upper_bound)
static void same(const char* what, const RuntimeConfig& a, const RuntimeConfig& b, bool cheetah) {
#define F(x) if (!(a.x == b.x)) fail(#x, std::string(what) + ": option " #x " differs");
  FIELDS(F)
#undef F
  if (!a.ttp_beaver_config != !b.ttp_beaver_config) return fail("ttp", std::string(what) + ": third-party section lost or invented");
  if (a.ttp_beaver_config) {
    auto &x = *a.ttp_beaver_config, &y = *b.ttp_beaver_config;
    if (x.server_host != y.server_host || x.adjust_rank != y.adjust_rank || x.asym_crypto_schema != y.asym_crypto_schema || x.server_public_key != y.server_public_key || x.transport_protocol != y.transport_protocol)
      fail("ttp", std::string(what) + ": third-party section differs");
    if (!x.ssl_config != !y.ssl_config) return fail("ssl", std::string(what) + ": ssl section lost or invented");
    if (x.ssl_config && (x.ssl_config->certificate != y.ssl_config->certificate || x.ssl_config->private_key != y.ssl_config->private_key || x.ssl_config->ca_file_path != y.ssl_config->ca_file_path || x.ssl_config->verify_depth != y.ssl_config->verify_depth))
      fail("ssl", std::string(what) + ": ssl section differs");
  }
  auto &p = a.cheetah_2pc_config, &q = b.cheetah_2pc_config;
  if (cheetah && (p.disable_matmul_pack != q.disable_matmul_pack || p.enable_mul_lsb_error != q.enable_mul_lsb_error || p.ot_kind != q.ot_kind)) fail("cheetah", std::string(what) + ": two-party section differs");
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (time_left()) {
    auto c = rcfg();
    std::string id = "protocol=" + std::to_string(c.protocol) + " field=" + std::to_string(c.field) + " #" + std::to_string(g_cases);
    setcase("config " + id);
    RuntimeConfig e(c);
    bool bad = c.protocol == 0 || c.field == 0;
    RuntimeConfig got;
    bool threw = false;
    try { RuntimeConfig full = makeFullRuntimeConfig(c); got.~RuntimeConfig(); new (&got) RuntimeConfig(full); } catch (const std::exception&) { threw = true; }
    same("argument of makeFullRuntimeConfig", c, e, true);
    if (threw != bad) fail("mandatory", id + (threw ? ": rejected" : ": accepted"));
    if (!threw) {
#define D(x, v) if (e.x == 0) e.x = v;
      D(fxp_div_goldschmidt_iters, 2) D(quick_sort_threshold, 32) D(fxp_exp_iters, 8) D(fxp_log_iters, 3) D(fxp_log_orders, 8) D(sine_cosine_iters, 10)
      D(fxp_fraction_bits, c.field == FM32 ? 8 : c.field == FM64 ? 18 : 26)
      if (e.fxp_exp_mode == 0) e.fxp_exp_mode = RuntimeConfig::EXP_TAYLOR;
      if (e.fxp_log_mode == 0) e.fxp_log_mode = RuntimeConfig::LOG_MINMAX;
      if (e.sigmoid_mode == 0) e.sigmoid_mode = RuntimeConfig::SIGMOID_REAL;
      if (e.fxp_exp_mode == RuntimeConfig::EXP_PRIME && e.field == FM128) D(experimental_exp_prime_offset, 13)
      if (e.experimental_enable_inter_op_par) D(experimental_inter_op_concurrency, 8)
      if (e.max_concurrency == 0) { e.max_concurrency = got.max_concurrency; if (got.max_concurrency <= 0) fail("max_concurrency", "not positive"); }
      same("completed configuration", got, e, true);
      RuntimeConfig again(got);
      populateRuntimeConfig(again);
      same("completed twice", again, got, true);
    }
    RuntimeConfig r1(c.ToProto());
    same("through a message", r1, c, c.protocol == CHEETAH);
    RuntimeConfig r2;
    if (!r2.ParseFromString(c.SerializeAsString())) fail("parse", id + ": own bytes are rejected");
    same("through bytes", r2, c, c.protocol == CHEETAH);
    CompilerOptions o, o2, o3;
    o.enable_pretty_print = rb(); o.pretty_print_dump_dir = rs(); o.xla_pp_kind = XLAPrettyPrintKind(below(3)); o.disable_sqrt_plus_epsilon_rewrite = rb(); o.disable_div_sqrt_rewrite = rb();
    o.disable_reduce_truncation_optimization = rb(); o.disable_maxpooling_optimization = rb(); o.disallow_mix_types_opts = rb(); o.disable_select_optimization = rb();
    o.enable_optimize_denominator_with_broadcast = rb(); o.disable_deallocation_insertion = rb(); o.disable_partial_sort_optimization = rb();
    if (!o2.ParseFromString(o.SerializeAsString()) || !(o == o2)) fail("options", "compiler options do not survive their wire form");
    o3 = o;
    switch (below(12)) { case 0: o3.enable_pretty_print ^= 1; break; case 1: o3.pretty_print_dump_dir += "q"; break; case 2: o3.xla_pp_kind = XLAPrettyPrintKind((o3.xla_pp_kind + 1) % 3); break;
      case 3: o3.disable_sqrt_plus_epsilon_rewrite ^= 1; break; case 4: o3.disable_div_sqrt_rewrite ^= 1; break; case 5: o3.disable_reduce_truncation_optimization ^= 1; break;
      case 6: o3.disable_maxpooling_optimization ^= 1; break; case 7: o3.disallow_mix_types_opts ^= 1; break; case 8: o3.disable_select_optimization ^= 1; break;
      case 9: o3.enable_optimize_denominator_with_broadcast ^= 1; break; case 10: o3.disable_deallocation_insertion ^= 1; break; default: o3.disable_partial_sort_optimization ^= 1; }
    if (o == o3) fail("options eq", "different compiler options compare equal");
    if (std::hash<CompilerOptions>{}(o) != std::hash<CompilerOptions>{}(o2)) fail("options hash", "equal compiler options hash differently");
    ExecutableProto x, y;
    x.name = rs(); x.code = rs();
    for (uint64_t k = below(4); k-- > 0;) x.input_names.push_back(rs() + std::to_string(k));
    for (uint64_t k = below(4); k-- > 0;) x.output_names.push_back(rs() + std::to_string(k));
    y.input_names.push_back("stale");
    if (!y.ParseFromString(x.SerializeAsString()) || x.name != y.name || x.code != y.code || x.input_names != y.input_names || x.output_names != y.output_names) fail("executable", "an executable does not survive its wire form");
    count(id);
  }
  return finish();
}
