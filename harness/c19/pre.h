#ifndef PRE_H
#define PRE_H
#ifdef __cplusplus
#include <cstddef>
#include <utility>
#endif
#include <unistd.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/time.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stddef.h>
#include <math.h>
#include <errno.h>
#include <time.h>
#endif
