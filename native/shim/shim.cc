#include <time.h>
#include <grpcpp/grpcpp.h>

#include <atomic>
#include <chrono>
#include <random>
#include <thread>

namespace grpc
{
static const Status &ok_status()
{
    static const Status s;
    return s;
}
static const Status &cancelled_status()
{
    static const Status s(StatusCode::CANCELLED, "cancelled");
    return s;
}
const Status &Status::OK = ok_status();
const Status &Status::CANCELLED = cancelled_status();

bool CompletionQueue::Next(void **tag, bool *ok)
{
    std::unique_lock lock(m_mutex);
    m_cv.wait(lock, [this] { return !m_items.empty() || (m_shutdown && m_pending == 0); });
    if (m_items.empty())
    {
        return false;
    }
    *tag = m_items.front().first;
    *ok = m_items.front().second;
    m_items.pop_front();
    return true;
}

void CompletionQueue::Shutdown()
{
    std::lock_guard lock(m_mutex);
    m_shutdown = true;
    m_cv.notify_all();
}

void CompletionQueue::Begin()
{
    std::lock_guard lock(m_mutex);
    ++m_pending;
}

void CompletionQueue::Push(void *tag, bool ok)
{
    std::lock_guard lock(m_mutex);
    --m_pending;
    m_items.emplace_back(tag, ok);
    m_cv.notify_all();
}

namespace vp
{
namespace
{
std::mutex registry_mutex;
std::map<std::string, std::shared_ptr<ServerState>> registry;

std::mutex fault_mutex;
std::string fault_method;
int fault_skip = 0;
int fault_count = 0;
std::atomic<uint64_t> total_calls{0};
std::atomic<uint64_t> faults_done{0};
std::atomic<int> max_delay{0};
std::mt19937_64 delay_rng;
std::mutex delay_mutex;

std::string key(const std::string &address)
{
    const auto pos = address.rfind(':');
    return pos == std::string::npos ? address : address.substr(pos + 1);
}
} // namespace

void ServerState::AddHandler(const std::string &method, Handler handler)
{
    handler.cq->Begin();
    std::unique_lock lock(mutex);
    if (stopped)
    {
        lock.unlock();
        handler.cq->Push(handler.tag, false);
        return;
    }
    auto &waiting = calls[method];
    if (waiting.empty())
    {
        handlers[method].push_back(std::move(handler));
        return;
    }
    auto call = std::move(waiting.front());
    waiting.pop_front();
    ++in_flight;
    lock.unlock();
    handler.accept(std::move(call));
    handler.cq->Push(handler.tag, true);
}

void ServerState::AddCall(std::shared_ptr<Call> call)
{
    std::unique_lock lock(mutex);
    if (stopped)
    {
        lock.unlock();
        call->done(Status(StatusCode::UNAVAILABLE, "server is stopped"), "");
        return;
    }
    auto &waiting = handlers[call->method];
    if (waiting.empty())
    {
        calls[call->method].push_back(std::move(call));
        return;
    }
    auto handler = std::move(waiting.front());
    waiting.pop_front();
    ++in_flight;
    lock.unlock();
    handler.accept(std::move(call));
    handler.cq->Push(handler.tag, true);
}

void ServerState::Finished()
{
    std::lock_guard lock(mutex);
    --in_flight;
    cv.notify_all();
}

void ServerState::Stop()
{
    std::unique_lock lock(mutex);
    if (stopped)
    {
        return;
    }
    stopped = true;
    auto left_handlers = std::move(handlers);
    auto left_calls = std::move(calls);
    lock.unlock();
    for (auto &m : left_calls)
    {
        for (auto &c : m.second)
        {
            c->done(Status(StatusCode::UNAVAILABLE, "server is stopping"), "");
        }
    }
    for (auto &m : left_handlers)
    {
        for (auto &h : m.second)
        {
            h.cq->Push(h.tag, false);
        }
    }
    lock.lock();
    cv.wait(lock, [this] { return in_flight == 0; });
}

void Register(const std::string &address, std::shared_ptr<ServerState> state)
{
    std::lock_guard lock(registry_mutex);
    registry[key(address)] = std::move(state);
}

void Unregister(const std::shared_ptr<ServerState> &state)
{
    std::lock_guard lock(registry_mutex);
    for (auto it = registry.begin(); it != registry.end();)
    {
        it = it->second == state ? registry.erase(it) : std::next(it);
    }
}

std::shared_ptr<ServerState> Find(const std::string &address)
{
    std::lock_guard lock(registry_mutex);
    auto it = registry.find(key(address));
    return it == registry.end() ? nullptr : it->second;
}

void Send(std::shared_ptr<ServerState> state, std::shared_ptr<Call> call)
{
    ++total_calls;
    {
        std::unique_lock lock(fault_mutex);
        if (fault_count > 0 && (fault_method.empty() || fault_method == call->method))
        {
            if (fault_skip > 0)
            {
                --fault_skip;
            }
            else
            {
                --fault_count;
                ++faults_done;
                lock.unlock();
                call->done(Status(StatusCode::UNAVAILABLE, "injected fault"), "");
                return;
            }
        }
    }
    if (!state)
    {
        call->done(Status(StatusCode::UNAVAILABLE, "failed to connect"), "");
        return;
    }
    state->AddCall(std::move(call));
}

void Delay()
{
    const int limit = max_delay.load();
    if (limit <= 0)
    {
        return;
    }
    int us;
    {
        std::lock_guard lock(delay_mutex);
        us = static_cast<int>(delay_rng() % static_cast<uint64_t>(limit));
    }
    std::this_thread::sleep_for(std::chrono::microseconds(us));
}
} // namespace vp

void Server::Shutdown()
{
    vp::Unregister(m_state);
    m_state->Stop();
}
} // namespace grpc

#define VP_EXPORT extern "C" __attribute__((visibility("default")))

VP_EXPORT void vp_grpc_faults(const char *method, int skip, int count)
{
    std::lock_guard lock(grpc::vp::fault_mutex);
    grpc::vp::fault_method = method;
    grpc::vp::fault_skip = skip;
    grpc::vp::fault_count = count;
    grpc::vp::faults_done = 0;
}

VP_EXPORT uint64_t vp_grpc_faults_done()
{
    return grpc::vp::faults_done.load();
}

namespace
{
int pause_every = 0;
std::atomic<int> pause_budget{0};
__thread uint64_t pause_state = 0;
__thread uint32_t pause_left = 0;
} // namespace

// Builds with -fsanitize-coverage=trace-pc call this at every branch: threads pause at random places.
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc()
{
    if (__builtin_expect(pause_every == 0, 1) || pause_left-- > 1)
    {
        return;
    }
    uint64_t x = pause_state ? pause_state : reinterpret_cast<uint64_t>(&pause_state) * 0x9E3779B97F4A7C15ull + 1;
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    const bool first = pause_state == 0;
    pause_state = x;
    pause_left = 1 + static_cast<uint32_t>((x >> 20) % (2u * static_cast<uint32_t>(pause_every)));
    if (first || pause_budget.load(std::memory_order_relaxed) <= 0)
    {
        return;
    }
    pause_budget.fetch_sub(1, std::memory_order_relaxed);
    timespec t{0, static_cast<long>((x >> 44) % 60000)};
    nanosleep(&t, nullptr);
}

VP_EXPORT void vp_pause(int every, int budget)
{
    pause_budget = budget;
    pause_every = every;
}

VP_EXPORT void vp_grpc_delay(uint64_t seed, int max_us)
{
    std::lock_guard lock(grpc::vp::delay_mutex);
    grpc::vp::delay_rng.seed(seed);
    grpc::vp::max_delay = max_us;
}

VP_EXPORT uint64_t vp_grpc_calls()
{
    return grpc::vp::total_calls.load();
}
