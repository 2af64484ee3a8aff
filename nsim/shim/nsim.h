// Interface between the stand-in gRPC/glog headers and the simulator (rt.cc).
#ifndef NSIM_H
#define NSIM_H
#include <cstddef>
#include <cstdint>
#include <string>

namespace google { namespace protobuf { class MessageLite; } }
namespace grpc { class Status; }

namespace nsim
{
struct Queue;
struct Chan;
struct Serv;
struct Call;

Queue *queue_new();
void queue_free(Queue *);
void queue_shutdown(Queue *);
// 0 shut down, 1 event, 2 timeout; deadline in simulated unix nanoseconds, negative for none.
int queue_next(Queue *, void **tag, bool *ok, int64_t deadline);

Chan *chan_new(const std::string &target, bool secure);
void chan_free(Chan *);
int chan_state(Chan *);
bool chan_wait(Chan *, int64_t deadline);
// A started client call; deadline negative for none.
Call *call_new(Chan *, Queue *, const char *method, const google::protobuf::MessageLite &request, int64_t deadline, bool wait_ready);
void call_start(Call *);
void call_finish(Call *, google::protobuf::MessageLite *reply, grpc::Status *status, void *tag);
void call_cancel(Call *);
void call_drop(Call *);

Serv *serv_new();
void serv_free(Serv *);
bool serv_listen(Serv *, const std::string &address, bool secure);
void serv_queue(Serv *, Queue *);
bool serv_start(Serv *);
void serv_shutdown(Serv *, int64_t deadline);
Chan *serv_channel(Serv *);
void serv_request(Serv *, const char *method, google::protobuf::MessageLite *request, Call **slot, Queue *cq, Queue *notify, void *tag);
void reply_finish(Call *, Queue *notify, const google::protobuf::MessageLite *reply, int code, const std::string &message, void *tag);
bool call_cancelled(Call *);

int64_t now_ns();
[[noreturn]] void fatal(const char *kind, const char *format, ...);
void log(const char *severity, const char *format, ...);
} // namespace nsim
#endif
