// Stand-in for gRPC C++: same interface, transport and queues run inside the simulator.
#ifndef NSIM_GRPCPP_H
#define NSIM_GRPCPP_H
#include <chrono>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include <google/protobuf/message_lite.h>
#include "nsim.h"

#define GPR_ASSERT(x) do { if (!(x)) nsim::fatal("assert", "GPR_ASSERT(%s) failed at %s:%d", #x, __FILE__, __LINE__); } while (0)
#ifndef GRPC_ARG_ENABLE_RETRIES
#define GRPC_ARG_ENABLE_RETRIES "grpc.enable_retries"
#define GRPC_ARG_MAX_RECEIVE_MESSAGE_LENGTH "grpc.max_receive_message_length"
#define GRPC_ARG_MAX_SEND_MESSAGE_LENGTH "grpc.max_send_message_length"
#define GRPC_ARG_KEEPALIVE_TIME_MS "grpc.keepalive_time_ms"
#define GRPC_ARG_KEEPALIVE_TIMEOUT_MS "grpc.keepalive_timeout_ms"
#define GRPC_ARG_SERVICE_CONFIG "grpc.service_config"
#define GRPC_ARG_USE_LOCAL_SUBCHANNEL_POOL "grpc.use_local_subchannel_pool"
#endif

enum grpc_connectivity_state { GRPC_CHANNEL_IDLE, GRPC_CHANNEL_CONNECTING, GRPC_CHANNEL_READY, GRPC_CHANNEL_TRANSIENT_FAILURE, GRPC_CHANNEL_SHUTDOWN };

namespace grpc
{
enum StatusCode
{
    OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5, ALREADY_EXISTS = 6,
    PERMISSION_DENIED = 7, RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9, ABORTED = 10, OUT_OF_RANGE = 11,
    UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14, DATA_LOSS = 15, UNAUTHENTICATED = 16, DO_NOT_USE = -1
};

class Status
{
  public:
    Status() = default;
    Status(StatusCode code, const std::string &message) : m_code(code), m_message(message) {}
    Status(StatusCode code, const std::string &message, const std::string &details) : m_code(code), m_message(message), m_details(details) {}
    static const Status &OK;
    static const Status &CANCELLED;
    StatusCode error_code() const { return m_code; }
    std::string error_message() const { return m_message; }
    std::string error_details() const { return m_details; }
    bool ok() const { return m_code == StatusCode::OK; }
    void IgnoreError() const {}

  private:
    StatusCode m_code = StatusCode::OK;
    std::string m_message;
    std::string m_details;
};

template <class T> int64_t nsim_deadline(const T &t)
{
    if (t == T::max())
        return -1;
    const auto left = std::chrono::duration_cast<std::chrono::nanoseconds>(t - T::clock::now()).count();
    const auto at = nsim::now_ns() + left;
    return at < 0 ? 0 : at;
}

class CompletionQueue
{
  public:
    enum NextStatus { SHUTDOWN, GOT_EVENT, TIMEOUT };
    CompletionQueue() : m_queue(nsim::queue_new()) {}
    CompletionQueue(const CompletionQueue &) = delete;
    CompletionQueue &operator=(const CompletionQueue &) = delete;
    virtual ~CompletionQueue() { nsim::queue_free(m_queue); }
    bool Next(void **tag, bool *ok) { return nsim::queue_next(m_queue, tag, ok, -1) == 1; }
    template <class T> NextStatus AsyncNext(void **tag, bool *ok, const T &deadline)
    {
        return static_cast<NextStatus>(nsim::queue_next(m_queue, tag, ok, nsim_deadline(deadline)));
    }
    void Shutdown() { nsim::queue_shutdown(m_queue); }
    nsim::Queue *nsim_queue() { return m_queue; }

  private:
    nsim::Queue *m_queue;
};

class ServerCompletionQueue final : public CompletionQueue {};

class ChannelCredentials { public: explicit ChannelCredentials(bool s = false) : secure(s) {} bool secure; };
class ServerCredentials { public: explicit ServerCredentials(bool s = false) : secure(s) {} bool secure; };
struct SslCredentialsOptions { std::string pem_root_certs, pem_private_key, pem_cert_chain; };
struct SslServerCredentialsOptions
{
    struct PemKeyCertPair { std::string private_key, cert_chain; };
    std::string pem_root_certs;
    std::vector<PemKeyCertPair> pem_key_cert_pairs;
};
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials() { return std::make_shared<ChannelCredentials>(); }
inline std::shared_ptr<ChannelCredentials> SslCredentials(const SslCredentialsOptions &) { return std::make_shared<ChannelCredentials>(true); }
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials() { return std::make_shared<ServerCredentials>(); }
inline std::shared_ptr<ServerCredentials> SslServerCredentials(const SslServerCredentialsOptions &) { return std::make_shared<ServerCredentials>(true); }

class ChannelArguments
{
  public:
    void SetMaxReceiveMessageSize(int) {}
    void SetMaxSendMessageSize(int) {}
    void SetInt(const std::string &k, int v) { ints[k] = v; }
    void SetString(const std::string &k, const std::string &v) { strings[k] = v; }
    void SetServiceConfigJSON(const std::string &) {}
    void SetLoadBalancingPolicyName(const std::string &) {}
    void SetUserAgentPrefix(const std::string &) {}
    std::map<std::string, int> ints;
    std::map<std::string, std::string> strings;
};

class Channel
{
  public:
    explicit Channel(nsim::Chan *c) : m_chan(c) {}
    Channel(const Channel &) = delete;
    ~Channel() { nsim::chan_free(m_chan); }
    nsim::Chan *nsim_chan() { return m_chan; }
    grpc_connectivity_state GetState(bool) { return static_cast<grpc_connectivity_state>(nsim::chan_state(m_chan)); }
    template <class T> bool WaitForConnected(const T &deadline) { return nsim::chan_wait(m_chan, nsim_deadline(deadline)); }

  private:
    nsim::Chan *m_chan;
};
typedef Channel ChannelInterface;

inline std::shared_ptr<Channel> CreateCustomChannel(const std::string &target, const std::shared_ptr<ChannelCredentials> &creds, const ChannelArguments &)
{
    return std::make_shared<Channel>(nsim::chan_new(target, creds->secure));
}
inline std::shared_ptr<Channel> CreateChannel(const std::string &target, const std::shared_ptr<ChannelCredentials> &creds)
{
    return CreateCustomChannel(target, creds, ChannelArguments());
}

class ClientContext
{
  public:
    ClientContext() = default;
    ClientContext(const ClientContext &) = delete;
    ~ClientContext() { if (m_call) nsim::call_drop(m_call); }
    template <class T> void set_deadline(const T &t) { m_deadline = nsim_deadline(t); }
    void set_wait_for_ready(bool v) { m_wait = v; }
    void AddMetadata(const std::string &, const std::string &) {}
    void TryCancel() { if (m_call) nsim::call_cancel(m_call); }
    nsim::Call *m_call = nullptr;
    int64_t m_deadline = -1;
    bool m_wait = false;
};

class ServerContext
{
  public:
    ServerContext() = default;
    ServerContext(const ServerContext &) = delete;
    ~ServerContext() { if (m_call) nsim::call_drop(m_call); }
    bool IsCancelled() const { return m_call && nsim::call_cancelled(m_call); }
    std::string peer() const { return "sim"; }
    nsim::Call *m_call = nullptr;
};
typedef ServerContext ServerContextBase;

template <class R> class ClientAsyncResponseReaderInterface
{
  public:
    virtual ~ClientAsyncResponseReaderInterface() = default;
    virtual void StartCall() = 0;
    virtual void Finish(R *msg, Status *status, void *tag) = 0;
};

template <class R> class ClientAsyncResponseReader final : public ClientAsyncResponseReaderInterface<R>
{
  public:
    explicit ClientAsyncResponseReader(nsim::Call *call) : m_call(call) {}
    void StartCall() override { nsim::call_start(m_call); }
    void ReadInitialMetadata(void *) {}
    void Finish(R *msg, Status *status, void *tag) override { nsim::call_finish(m_call, msg, status, tag); }

  private:
    nsim::Call *m_call;
};
template <class R> class ClientReader;
template <class W> class ClientWriter;
template <class W, class R> class ClientReaderWriter;

template <class R> class ServerAsyncResponseWriter final
{
  public:
    explicit ServerAsyncResponseWriter(ServerContext *ctx) : m_ctx(ctx) {}
    void Finish(const R &msg, const Status &status, void *tag)
    {
        nsim::reply_finish(m_ctx->m_call, m_notify, &msg, status.error_code(), status.error_message(), tag);
    }
    void FinishWithError(const Status &status, void *tag)
    {
        nsim::reply_finish(m_ctx->m_call, m_notify, nullptr, status.error_code(), status.error_message(), tag);
    }
    ServerContext *m_ctx;
    nsim::Queue *m_notify = nullptr;
};

class Service
{
  public:
    virtual ~Service() = default;
    nsim::Serv *m_serv = nullptr;
};

class Server
{
  public:
    explicit Server(nsim::Serv *s) : m_serv(s) {}
    Server(const Server &) = delete;
    ~Server() { nsim::serv_shutdown(m_serv, -1); nsim::serv_free(m_serv); }
    void Shutdown() { nsim::serv_shutdown(m_serv, -1); }
    template <class T> void Shutdown(const T &deadline) { nsim::serv_shutdown(m_serv, nsim_deadline(deadline)); }
    void Wait() {}
    std::shared_ptr<Channel> InProcessChannel(const ChannelArguments &) { return std::make_shared<Channel>(nsim::serv_channel(m_serv)); }

  private:
    nsim::Serv *m_serv;
};

class ServerBuilder
{
  public:
    ServerBuilder() : m_serv(nsim::serv_new()) {}
    ~ServerBuilder() { if (m_serv) nsim::serv_free(m_serv); }
    ServerBuilder &SetMaxReceiveMessageSize(int) { return *this; }
    ServerBuilder &SetMaxSendMessageSize(int) { return *this; }
    ServerBuilder &SetMaxMessageSize(int) { return *this; }
    ServerBuilder &AddChannelArgument(const std::string &, int) { return *this; }
    ServerBuilder &AddChannelArgument(const std::string &, const std::string &) { return *this; }
    ServerBuilder &AddListeningPort(const std::string &address, std::shared_ptr<ServerCredentials> creds, int *port = nullptr)
    {
        m_address.emplace_back(address, creds->secure);
        if (port)
            *port = 0;
        return *this;
    }
    ServerBuilder &RegisterService(Service *s) { m_services.push_back(s); return *this; }
    std::unique_ptr<ServerCompletionQueue> AddCompletionQueue(bool = true)
    {
        auto q = std::make_unique<ServerCompletionQueue>();
        nsim::serv_queue(m_serv, q->nsim_queue());
        return q;
    }
    std::unique_ptr<Server> BuildAndStart()
    {
        for (auto &a : m_address)
            if (!nsim::serv_listen(m_serv, a.first, a.second))
                return nullptr;
        for (auto *s : m_services)
            s->m_serv = m_serv;
        nsim::serv_start(m_serv);
        auto *s = m_serv;
        m_serv = nullptr;
        return std::make_unique<Server>(s);
    }

  private:
    nsim::Serv *m_serv;
    std::vector<std::pair<std::string, bool>> m_address;
    std::vector<Service *> m_services;
};
inline void EnableDefaultHealthCheckService(bool) {}

template <class R> std::unique_ptr<ClientAsyncResponseReader<R>> nsim_prepare(Channel &channel, ClientContext *ctx, const char *method, const google::protobuf::MessageLite &request, CompletionQueue *cq)
{
    auto *call = nsim::call_new(channel.nsim_chan(), cq->nsim_queue(), method, request, ctx->m_deadline, ctx->m_wait);
    ctx->m_call = call;
    return std::make_unique<ClientAsyncResponseReader<R>>(call);
}
template <class R> Status nsim_blocking(Channel &channel, ClientContext *ctx, const char *method, const google::protobuf::MessageLite &request, R *reply)
{
    CompletionQueue cq;
    Status status;
    auto rpc = nsim_prepare<R>(channel, ctx, method, request, &cq);
    rpc->StartCall();
    rpc->Finish(reply, &status, nullptr);
    void *tag;
    bool ok;
    cq.Next(&tag, &ok);
    return status;
}
} // namespace grpc
#endif
