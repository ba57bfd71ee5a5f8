#!/bin/bash
# usage: genpb.sh OUTDIR   -- regenerate the protobuf classes from /repo's spu.proto
set -e
out=$1; mkdir -p $out
cd "${REPO_ROOT:-/repo}/src"
protoc --cpp_out=$out libspu/spu.proto
[ -f libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/service.proto ] && protoc -I. --cpp_out=$out libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/service.proto || true
# newer protobuf accepts std::string_view here
sed -i -E 's/^class ([A-Za-z]+) final :$/&/; /^class .* final :/,/public:/ s/ public:/ public:\n  bool ParseFromString(std::string_view d) { return ::google::protobuf::MessageLite::ParseFromString(std::string(d)); }/' $out/libspu/spu.pb.h
sed -i '1i #include <string_view>' $out/libspu/spu.pb.h
