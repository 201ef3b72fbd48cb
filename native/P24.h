#include <unistd.h>
#include <fcntl.h>
int n24_pipe(int p[2]); int n24_dup(int); int n24_dup2(int, int); int n24_fcntl(int, int, ...); ssize_t n24_read(int, void *, size_t); int n24_close(int);
#define pipe n24_pipe
#define dup n24_dup
#define dup2 n24_dup2
#define fcntl n24_fcntl
#define read n24_read
#define close n24_close
