"""Generates the service stub header from a .proto file (unary calls only)."""
import re
import sys


def generate(proto, header):
    text = re.sub(r"/\*.*?\*/", " ", proto, flags=re.S)
    text = re.sub(r"//[^\n]*", " ", text)
    package = re.search(r"\bpackage\s+([\w.]+)\s*;", text)
    ns = package.group(1).split(".") if package else []
    full = ".".join(ns)
    out = ["#pragma once", "#include <grpcpp/grpcpp.h>", '#include "%s"' % header]
    out += ["namespace %s {" % n for n in ns]
    for m in re.finditer(r"\bservice\s+(\w+)\s*\{((?:[^{}]|\{[^{}]*\})*)\}", text):
        name, body = m.group(1), m.group(2)
        rpcs = []
        for r in re.finditer(r"\brpc\s+(\w+)\s*\(\s*(stream\s+)?([\w.]+)\s*\)\s*returns\s*\(\s*(stream\s+)?([\w.]+)\s*\)", body):
            if r.group(2) or r.group(4):
                raise SystemExit("streaming call %s is not supported" % r.group(1))
            rpcs.append((r.group(1), r.group(3).replace(".", "::"), r.group(5).replace(".", "::")))
        path = lambda f: '"/%s%s/%s"' % (full + "." if full else "", name, f)
        out += ["class %s final {" % name, " public:",
                '  static constexpr char const* service_full_name() { return "%s.%s"; }' % (full, name),
                "  class StubInterface { public: virtual ~StubInterface() = default; };",
                "  class Stub final : public StubInterface {", "   public:",
                "    explicit Stub(std::shared_ptr<::grpc::Channel> c) : m_channel(std::move(c)) {}"]
        for f, q, a in rpcs:
            out += ["    std::unique_ptr<::grpc::ClientAsyncResponseReader<%s>> PrepareAsync%s(::grpc::ClientContext* ctx, const %s& request, ::grpc::CompletionQueue* cq)" % (a, f, q),
                    "    { return ::grpc::nsim_prepare<%s>(*m_channel, ctx, %s, request, cq); }" % (a, path(f)),
                    "    std::unique_ptr<::grpc::ClientAsyncResponseReader<%s>> Async%s(::grpc::ClientContext* ctx, const %s& request, ::grpc::CompletionQueue* cq)" % (a, f, q),
                    "    { auto r = PrepareAsync%s(ctx, request, cq); r->StartCall(); return r; }" % f,
                    "    ::grpc::Status %s(::grpc::ClientContext* ctx, const %s& request, %s* reply)" % (f, q, a),
                    "    { return ::grpc::nsim_blocking(*m_channel, ctx, %s, request, reply); }" % path(f)]
        out += ["   private:", "    std::shared_ptr<::grpc::Channel> m_channel;", "  };",
                "  static std::unique_ptr<Stub> NewStub(const std::shared_ptr<::grpc::Channel>& channel) { return std::make_unique<Stub>(channel); }",
                "  class Service : public ::grpc::Service {", "   public:"]
        for f, q, a in rpcs:
            out += ["    virtual ::grpc::Status %s(::grpc::ServerContext*, const %s*, %s*)" % (f, q, a),
                    '    { return ::grpc::Status(::grpc::StatusCode::UNIMPLEMENTED, ""); }']
        out += ["  };", "  class AsyncService : public Service {", "   public:"]
        for f, q, a in rpcs:
            out += ["    void Request%s(::grpc::ServerContext* ctx, %s* request, ::grpc::ServerAsyncResponseWriter<%s>* responder, ::grpc::CompletionQueue* cq, ::grpc::ServerCompletionQueue* notify, void* tag)" % (f, q, a),
                    "    { responder->m_notify = notify->nsim_queue(); ::nsim::serv_request(m_serv, %s, request, &ctx->m_call, cq->nsim_queue(), notify->nsim_queue(), tag); }" % path(f)]
        out += ["  };", "};"]
    out += ["}" for _ in ns]
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    sys.stdout.write(generate(open(sys.argv[1]).read(), sys.argv[2]))
