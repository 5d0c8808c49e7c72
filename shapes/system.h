#ifndef SYSTEM_H
#define SYSTEM_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
#include <stdio.h>
#include <time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/select.h>
#include <pthread.h>
#include <signal.h>
#include <poll.h>
#include <locale.h>
#include <dirent.h>
#include <termios.h>
#include <stdint.h>
#include <inttypes.h>
#include <sys/time.h>
#include <semaphore.h>
#include <stdlib.h>
time_t y_time(time_t *t, const struct tm *p2);
ssize_t y_read(int p1, void *p2, size_t n, off_t off);
FILE *y_open(const char *p1, mode_t m);
int y_stat(FILE *p1, struct stat *p2);
struct timespec y_ts(struct timespec p1, clockid_t c);
struct timeval y_tv(struct timeval p1, suseconds_t u);
int y_bind(int p1, const struct sockaddr *p2, socklen_t n);
struct sockaddr_in y_in(struct in_addr p1, in_port_t p);
int y_sel(fd_set *p1, sigset_t *p2, fd_set p3);
int y_thr(pthread_t t, pthread_attr_t *p2, pthread_mutex_t *p3, void *(*p4)(void *));
int y_poll(struct pollfd *p1, nfds_t n, struct pollfd p3);
struct lconv *y_loc(void);
DIR *y_dir(struct dirent *p1, ino_t i);
speed_t y_tty(struct termios *p1, cc_t c);
div_t y_div(int p1, ldiv_t p2);
intmax_t y_max(uintmax_t a, int_fast16_t b, int_least8_t c, uintptr_t d);
void (*y_sig(int p1, void (*p2)(int)))(int);
sem_t *y_sem(sem_t *p1, void (*p2)(int));
union sigval y_sv(union sigval p1);
pid_t y_fork(uid_t a, gid_t b, dev_t c, blkcnt_t d);
#endif
