/* The console with its sockets replaced by the harness' terminal. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
int term_socket(void); int term_select(int n, fd_set *r); int term_accept(void); long term_recv(int fd, void *b, size_t n); long term_send(int fd, const void *b, size_t n); int term_close(int fd);
#define socket(a, b, c) term_socket()
#define setsockopt(a, b, c, d, e) 0
#define bind(a, b, c) 0
#define listen(a, b) 0
#define select(n, r, w, x, t) term_select(n, r)
#define accept(a, b, c) term_accept()
#define recv(a, b, n, f) term_recv(a, b, n)
#define send(a, b, n, f) term_send(a, b, n)
#define close(a) term_close(a)
#include "model1052.c"
