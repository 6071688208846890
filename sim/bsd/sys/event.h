/* The kqueue interface, as the simulated kernel provides it. */
#ifndef SIM_SYS_EVENT_H
#define SIM_SYS_EVENT_H
#include <stdint.h>
#include <sys/types.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
#define EVFILT_READ   (-1)
#define EVFILT_WRITE  (-2)
#define EV_ADD        0x0001
#define EV_DELETE     0x0002
#define EV_ENABLE     0x0004
#define EV_DISABLE    0x0008
#define EV_ONESHOT    0x0010
#define EV_CLEAR      0x0020
#define EV_RECEIPT    0x0040
#define EV_DISPATCH   0x0080
#define EV_ERROR      0x4000
#define EV_EOF        0x8000
struct kevent { uintptr_t ident; short filter; unsigned short flags; unsigned int fflags; intptr_t data; void* udata; };
#define EV_SET(kp, a, b, c, d, e, f) do { struct kevent* kp_ = (kp); kp_->ident = (a); kp_->filter = (b); kp_->flags = (c); kp_->fflags = (d); kp_->data = (e); kp_->udata = (f); } while (0)
int kqueue(void);
int kevent(int kq, const struct kevent* changes, int nchanges, struct kevent* events, int nevents, const struct timespec* timeout);
#ifdef __cplusplus
}
#endif
#endif
