#pragma once
#include <string>
#include <memory>
namespace brpc { struct VerifyOptions { std::string ca_file_path; int verify_depth{0}; }; struct CertInfo { std::string certificate, private_key; }; struct ChannelSSLOptions { VerifyOptions verify; CertInfo client_cert; }; class Channel {}; }
