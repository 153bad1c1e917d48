// In-process stand-in for the part of gRPC used by the engine.
//
// Messages are serialized on the way like on a wire, requests are matched with pending handlers of a server
// in order of arrival. Faults and delays can be injected with the vp_grpc_* functions in shim.cc.
#pragma once
#include <grpc/grpc.h>

#include <condition_variable>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

#define GPR_ASSERT(x)                                                                                                  \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(x))                                                                                                      \
        {                                                                                                              \
            fprintf(stderr, "assertion failed: %s\n", #x);                                                             \
            abort();                                                                                                   \
        }                                                                                                              \
    } while (0)

namespace grpc
{
enum StatusCode
{
    OK = 0,
    CANCELLED = 1,
    UNKNOWN = 2,
    INVALID_ARGUMENT = 3,
    DEADLINE_EXCEEDED = 4,
    NOT_FOUND = 5,
    ALREADY_EXISTS = 6,
    PERMISSION_DENIED = 7,
    RESOURCE_EXHAUSTED = 8,
    FAILED_PRECONDITION = 9,
    ABORTED = 10,
    OUT_OF_RANGE = 11,
    UNIMPLEMENTED = 12,
    INTERNAL = 13,
    UNAVAILABLE = 14,
    DATA_LOSS = 15,
    UNAUTHENTICATED = 16,
};

class Status
{
  public:
    Status() = default;
    Status(StatusCode code, std::string message) : m_code(code), m_message(std::move(message))
    {
    }
    Status(StatusCode code, std::string message, std::string) : m_code(code), m_message(std::move(message))
    {
    }
    bool ok() const
    {
        return m_code == StatusCode::OK;
    }
    StatusCode error_code() const
    {
        return m_code;
    }
    std::string error_message() const
    {
        return m_message;
    }
    static const Status &OK;
    static const Status &CANCELLED;

  private:
    StatusCode m_code = StatusCode::OK;
    std::string m_message;
};

class ServerContext
{
};
class ClientContext
{
  public:
    template <typename T> void set_deadline(const T &)
    {
    }
    void set_wait_for_ready(bool)
    {
    }
};

class CompletionQueue
{
  public:
    CompletionQueue() = default;
    virtual ~CompletionQueue() = default;
    CompletionQueue(const CompletionQueue &) = delete;

    bool Next(void **tag, bool *ok);
    void Shutdown();

    // Operations started, but not delivered yet keep the queue alive.
    void Begin();
    void Push(void *tag, bool ok);

  private:
    std::mutex m_mutex;
    std::condition_variable m_cv;
    std::deque<std::pair<void *, bool>> m_items;
    size_t m_pending = 0;
    bool m_shutdown = false;
};

class ServerCompletionQueue : public CompletionQueue
{
};

namespace vp
{
// Client side of a call.
struct Call
{
    std::string method;
    std::string request;
    std::function<void(const Status &, const std::string &)> done;
};

// Handler waiting for a call on the server.
struct Handler
{
    ServerCompletionQueue *cq;
    void *tag;
    std::function<void(std::shared_ptr<Call>)> accept;
};

struct ServerState
{
    std::mutex mutex;
    std::condition_variable cv;
    std::map<std::string, std::deque<Handler>> handlers;
    std::map<std::string, std::deque<std::shared_ptr<Call>>> calls;
    size_t in_flight = 0;
    bool stopped = false;

    void AddHandler(const std::string &method, Handler handler);
    void AddCall(std::shared_ptr<Call> call);
    void Finished();
    void Stop();
};

void Register(const std::string &address, std::shared_ptr<ServerState> state);
void Unregister(const std::shared_ptr<ServerState> &state);
std::shared_ptr<ServerState> Find(const std::string &address);
void Send(std::shared_ptr<ServerState> state, std::shared_ptr<Call> call);
// Order of completion is what other threads make of it, unless delays are set.
void Delay();
} // namespace vp

class Channel
{
  public:
    explicit Channel(std::string address) : m_address(std::move(address))
    {
    }
    explicit Channel(std::weak_ptr<vp::ServerState> state) : m_state(std::move(state))
    {
    }
    std::shared_ptr<vp::ServerState> server() const
    {
        return m_address.empty() ? m_state.lock() : vp::Find(m_address);
    }

  private:
    std::string m_address;
    std::weak_ptr<vp::ServerState> m_state;
};
using ChannelInterface = Channel;

class ChannelArguments
{
  public:
    template <typename T> void SetInt(const std::string &, const T &)
    {
    }
    template <typename T> void SetString(const std::string &, const T &)
    {
    }
    void SetMaxReceiveMessageSize(int)
    {
    }
    void SetMaxSendMessageSize(int)
    {
    }
    void SetLoadBalancingPolicyName(const std::string &)
    {
    }
    void SetServiceConfigJSON(const std::string &)
    {
    }
    void SetSslTargetNameOverride(const std::string &)
    {
    }
};

struct ChannelCredentials
{
};
struct ServerCredentials
{
};
struct SslCredentialsOptions
{
    std::string pem_root_certs, pem_private_key, pem_cert_chain;
};
struct SslServerCredentialsOptions
{
    struct PemKeyCertPair
    {
        std::string private_key, cert_chain;
    };
    std::string pem_root_certs;
    std::vector<PemKeyCertPair> pem_key_cert_pairs;
};
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials()
{
    return std::make_shared<ChannelCredentials>();
}
inline std::shared_ptr<ChannelCredentials> SslCredentials(const SslCredentialsOptions &)
{
    return std::make_shared<ChannelCredentials>();
}
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials()
{
    return std::make_shared<ServerCredentials>();
}
inline std::shared_ptr<ServerCredentials> SslServerCredentials(const SslServerCredentialsOptions &)
{
    return std::make_shared<ServerCredentials>();
}
inline std::shared_ptr<Channel> CreateCustomChannel(const std::string &target, const std::shared_ptr<ChannelCredentials> &,
                                                    const ChannelArguments &)
{
    return std::make_shared<Channel>(target);
}
inline std::shared_ptr<Channel> CreateChannel(const std::string &target, const std::shared_ptr<ChannelCredentials> &)
{
    return std::make_shared<Channel>(target);
}
inline void EnableDefaultHealthCheckService(bool)
{
}

class Service
{
  public:
    virtual ~Service() = default;
    std::shared_ptr<vp::ServerState> vp_state;
};

class Server
{
  public:
    explicit Server(std::shared_ptr<vp::ServerState> state) : m_state(std::move(state))
    {
    }
    ~Server()
    {
        Shutdown();
    }
    void Shutdown();
    template <typename T> void Shutdown(const T &)
    {
        Shutdown();
    }
    std::shared_ptr<Channel> InProcessChannel(const ChannelArguments &)
    {
        return std::make_shared<Channel>(std::weak_ptr<vp::ServerState>(m_state));
    }

  private:
    std::shared_ptr<vp::ServerState> m_state;
};

class ServerBuilder
{
  public:
    ServerBuilder() : m_state(std::make_shared<vp::ServerState>())
    {
    }
    ServerBuilder &SetMaxReceiveMessageSize(int)
    {
        return *this;
    }
    ServerBuilder &SetMaxSendMessageSize(int)
    {
        return *this;
    }
    ServerBuilder &AddListeningPort(const std::string &address, std::shared_ptr<ServerCredentials>, int * = nullptr)
    {
        m_addresses.push_back(address);
        return *this;
    }
    ServerBuilder &RegisterService(Service *service)
    {
        service->vp_state = m_state;
        return *this;
    }
    std::unique_ptr<ServerCompletionQueue> AddCompletionQueue(bool = true)
    {
        return std::make_unique<ServerCompletionQueue>();
    }
    std::unique_ptr<Server> BuildAndStart()
    {
        for (const auto &a : m_addresses)
        {
            vp::Register(a, m_state);
        }
        return std::make_unique<Server>(m_state);
    }

  private:
    std::shared_ptr<vp::ServerState> m_state;
    std::vector<std::string> m_addresses;
};

template <typename W> class ServerAsyncResponseWriter
{
  public:
    explicit ServerAsyncResponseWriter(ServerContext *)
    {
    }
    void Finish(const W &reply, const Status &status, void *tag)
    {
        vp::Delay();
        m_cq->Begin();
        m_call->done(status, status.ok() ? reply.SerializeAsString() : std::string());
        m_call.reset();
        m_state->Finished();
        m_cq->Push(tag, true);
    }
    void FinishWithError(const Status &status, void *tag)
    {
        Finish(W(), status, tag);
    }

    template <typename Request>
    void VpWait(std::shared_ptr<vp::ServerState> state, const std::string &method, Request *request,
                ServerCompletionQueue *cq, void *tag)
    {
        m_state = state;
        m_cq = cq;
        state->AddHandler(method, vp::Handler{cq, tag, [this, request](std::shared_ptr<vp::Call> call) {
                                                  m_call = std::move(call);
                                                  GPR_ASSERT(request->ParseFromString(m_call->request));
                                              }});
    }

  private:
    std::shared_ptr<vp::ServerState> m_state;
    ServerCompletionQueue *m_cq = nullptr;
    std::shared_ptr<vp::Call> m_call;
};

template <typename R> class ClientAsyncResponseReader
{
  public:
    ClientAsyncResponseReader(std::shared_ptr<Channel> channel, std::string method, std::string request,
                              CompletionQueue *cq)
        : m_channel(std::move(channel)), m_method(std::move(method)), m_request(std::move(request)), m_cq(cq)
    {
    }
    void StartCall()
    {
    }
    void Finish(R *reply, Status *status, void *tag)
    {
        auto call = std::make_shared<vp::Call>();
        call->method = m_method;
        call->request = std::move(m_request);
        m_cq->Begin();
        call->done = [reply, status, tag, cq = m_cq](const Status &result, const std::string &data) {
            *status = result;
            if (result.ok())
            {
                GPR_ASSERT(reply->ParseFromString(data));
            }
            cq->Push(tag, true);
        };
        vp::Send(m_channel->server(), std::move(call));
    }

  private:
    std::shared_ptr<Channel> m_channel;
    std::string m_method;
    std::string m_request;
    CompletionQueue *m_cq;
};

template <typename R> class ClientReader;
template <typename W, typename R> class ClientReaderWriter;
template <typename W> class ClientWriter;
} // namespace grpc
