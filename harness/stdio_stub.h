/* Stand-ins for the stdio calls of the desktop file interface (forced include). */
#ifndef STDIO_STUB_H
#define STDIO_STUB_H
#include <stdio.h>
#include <sys/types.h>
FILE *h_fopen(const char *name, const char *mode);
int h_fclose(FILE *f);
int h_fflush(FILE *f);
int h_fseek(FILE *f, long off, int whence);
int h_fseeko(FILE *f, off_t off, int whence);
long h_ftell(FILE *f);
off_t h_ftello(FILE *f);
void h_rewind(FILE *f);
int h_ferror(FILE *f);
size_t h_fread(void *p, size_t size, size_t n, FILE *f);
size_t h_fwrite(const void *p, size_t size, size_t n, FILE *f);
#define fopen h_fopen
#define fclose h_fclose
#define fflush h_fflush
#define fseek h_fseek
#define fseeko h_fseeko
#define ftell h_ftell
#define ftello h_ftello
#define rewind h_rewind
#define ferror h_ferror
#define fread h_fread
#define fwrite h_fwrite
#endif
