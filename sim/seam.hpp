#pragma once
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/epoll.h>
#include <poll.h>
#include <unistd.h>
#include <netdb.h>
#include <pthread.h>
