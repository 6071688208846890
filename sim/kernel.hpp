// Simulated descriptor table, sockets, pipes, readiness queues and peers.
#pragma once
#include "core.hpp"
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/epoll.h>
namespace sim {

struct File; typedef std::shared_ptr<File> FileP;
struct Anc { uint64_t off; std::vector<FileP> fds; };
struct Cmsg { int level, type; std::string data; };
struct Dgram { std::string data; std::vector<FileP> fds; std::vector<Cmsg> other; };
struct Chan {
    std::deque<uint8_t> q; std::deque<Anc> anc; std::deque<Dgram> msgs;
    size_t cap = 4096; bool wclosed = false, rclosed = false; int err = 0;
    uint64_t rd = 0, wr = 0;
    int writers = 0, readers = 0;
};
typedef std::shared_ptr<Chan> ChanP;
enum Kind { K_UNBOUND, K_STREAM, K_DGRAM, K_PIPE_R, K_PIPE_W, K_LISTEN, K_EPOLL, K_REG };
struct KqItem { std::weak_ptr<File> f; bool oneshot, enabled; void* udata; };
struct EpItem { std::weak_ptr<File> f; uint32_t events; epoll_data_t data; bool disabled; };
struct File {
    int id; Kind kind; int flags = 0; ChanP rx, tx; int domain = 0, type = 0;
    std::string addr, from;   // bound to; where an accepted connection was reported to come from
    std::deque<FileP> backlog; size_t backlog_max = 128;
    std::map<std::pair<int, int>, EpItem> ep;   // by descriptor and open file, as a descriptor number is reused while a duplicate keeps its old file registered
    std::map<std::pair<int, int>, KqItem> kq;   // by descriptor and filter
    std::vector<std::weak_ptr<File>> watchers;
    std::map<std::pair<int, int>, std::string> opts; bool tcp = false; bool closed = false, noinject = false; uint32_t injected = 0, hard[2] = {0, 0};   // errors injected into calls on it; errors (other than interruptions) its reads and writes reported
    ~File();
};
// descriptor table
int fd_install(FileP f, int lowest = -1);   // -1: the lowest free one of the run
void fd_base(int n);                        // fixes where a run's descriptors start
FileP fd_get(int fd);
bool fd_open(int fd);
std::vector<int> fds_open();
size_t fd_count();
int fd_flags(int fd);
uint64_t fd_closed_count();
// constructors (harness side)
FileP k_reg(int tag = 0);
std::pair<FileP, FileP> k_pair(bool tcp, size_t cap_ab, size_t cap_ba);
std::pair<FileP, FileP> k_dgram_pair(size_t cap);
std::pair<FileP, FileP> k_pipe(size_t cap);   // read end, write end
FileP k_listen(const std::string& addr);
FileP k_connect_to(FileP listener);           // peer side; nullptr when refused
FileP find_listener(const std::string& addr);
// peer operations
size_t peer_space(FileP f);
size_t peer_avail(FileP f);
size_t peer_write(FileP f, const void* p, size_t n);
std::string peer_read(FileP f, size_t max);
void peer_send_dgram(FileP f, const std::string& d, const std::vector<FileP>& fds, const std::vector<Cmsg>& other = {});
bool peer_recv_dgram(FileP f, Dgram& d);
void peer_write_anc(FileP f, const std::string& d, const std::vector<FileP>& fds);
bool peer_eof(FileP f);       // other side closed and everything was read
void peer_close(FileP f);
void peer_shutdown_write(FileP f);
void peer_reset(FileP f);
bool file_is(FileP f, int tag);
void close_any(bool on);      // closing a descriptor that is not open is EBADF, not a violation

// environment actors (remote peers)
struct Actor { std::function<bool()> ready; std::function<void()> act; std::string name; uint32_t stalled = 0; };
void actor_add(std::string name, std::function<bool()> ready, std::function<void()> act);
void actors_clear();
bool env_step();              // one actor acts; false when none can
void env_rate(uint32_t permille);   // chance that an actor acts at any system call
void on_stuck(std::function<bool()> fn);  // readiness wait with nothing left to happen
void on_blocked(std::function<void()> fn);// blocking call with nothing left to happen
bool fd_nonblocking(int fd);
uint64_t wait_calls();
void progress();
void socketpair_room(size_t n);                // least capacity of a socket pair the library makes
void on_accept(std::function<void()> f);       // an accept begins
void on_wait(std::function<void()> f);        // a readiness wait begins
void on_report(std::function<void(int)> f);   // a descriptor is reported ready
void on_arm(std::function<void(int)> f);      // a descriptor is (re)armed (epoll)
struct SysCount { uint64_t reads, writes, waits, closes, accepts; };
extern SysCount syscount;
}
