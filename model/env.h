/* The modelled world of libmsi: files, OLE containers (libgsf), code pages. */
#ifndef ENV_H
#define ENV_H
#include "sym.h"
#include <glib.h>
#include <glib-object.h>
#include <gsf/gsf.h>
typedef struct Node { char *name; int dir; int refs; uint8_t *data; size_t len; int n; struct Node *kid[24]; uint8_t clsid[16]; } Node;
/* container / plain file at a path (NULL: no such file) */
Node *env_file(const char *path);
void env_put(const char *path, Node *n);            /* replaces */
Node *env_node(const char *name, int dir);
void env_data(Node *n, const void *d, size_t len);  /* copies */
Node *env_kid(Node *dir, const char *name);         /* by (encoded) name, NULL if absent */
void env_add(Node *dir, Node *kid);
int env_same(Node *a, Node *b);                     /* same content */
Node *env_mem_file(const void *d, size_t len);
extern int env_open_inputs, env_nfiles;
/* Operations of the outside world that a harness may make fail, or crash at. */
enum { OP_OPEN_READ, OP_OPEN_WRITE, OP_NEW_CHILD, OP_WRITE, OP_CLOSE_STREAM, OP_CLOSE_FILE, OP_UNLINK, OP_RENAME, OP_READ, OP_FD_WRITE, OP_CONVERT };
extern int (*env_fail)(int op, const char *what);   /* non-zero: the operation fails */
extern void (*env_point)(int op, const char *what); /* called right before and right after every change to a file */
/* captured output of write(fd, ...) */
extern char env_out[16384]; extern size_t env_out_len; extern int env_out_fd;
GsfInput *env_input(const void *d, size_t len);     /* memory input owning a copy */
extern int env_convs_open;
Node *env_ole_blob(Node *dir);                      /* a plain file whose content is the container */
#endif
