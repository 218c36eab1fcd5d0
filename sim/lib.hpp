// Binding to a build variant of the library (loaded at run time, one shared object per variant).
#pragma once
#include "common.hpp"
struct ush_object;
struct ush_file_descriptor;
struct ush_node_object;

struct Lib {
    void *h = nullptr;
    Cfg cfg;
    size_t obj_size, node_size, file_size, desc_size, io_size;
    void (*init)(ush_object *, const void *);
    void (*deinit)(ush_object *);
    bool (*service)(ush_object *);
    void (*print)(ush_object *, char *);
    void (*print_no_newline)(ush_object *, char *);
    void (*print_status)(ush_object *, int);
    void (*flush)(ush_object *);
    void (*reset)(ush_object *);
    int (*mount)(ush_object *, const char *, ush_node_object *, const ush_file_descriptor *, size_t);
    int (*unmount)(ush_object *, const char *);
    int (*chdir)(ush_object *, const char *);
    ush_node_object *(*by_path)(ush_object *, const char *);
    ush_node_object *(*parent)(ush_object *, const char *);
    void (*abs)(ush_object *, const char *, char *);
    const ush_file_descriptor *(*find)(ush_object *, const char *);
    int (*gadd)(ush_object *, ush_node_object *, const ush_file_descriptor *, size_t);
    int (*gdel)(ush_object *, ush_node_object *);
    void (*file_fill)(void *, size_t, const char *, const char *, const char *, void *, void *, void *);
    void (*io_fill)(void *, void *, void *);
    void (*desc_fill)(void *, const void *, char *, size_t, char *, size_t, size_t, char *, void *);
    size_t (*file_index)(const ush_file_descriptor *, const void *);
    void (*printf_s)(ush_object *, const char *);
    void (*printf_fmt)(ush_object *, const char *, int);
    void (*printf_bad)(ush_object *);
    // commands with a processing callback; absent when the glue does not build
    void (*proc_fill)(void *, size_t, void *);
    void (*proc_start)(ush_object *, const void *, size_t);
    int (*proc_state)(ush_object *);
    void (*proc_write)(ush_object *, char *, int);
    void (*proc_write_bin)(ush_object *, u8 *, size_t, int);
    void (*proc_goto)(ush_object *, int);
    void (*proc_put)(ush_object *, size_t);
    bool (*proc_same)(ush_object *, size_t);
    // demo application
    void (*demo_open)(void);
    void (*demo_init)(void);
    bool (*demo_service)(void);
    void *demo_obj;
    // writable memory of the shared object, as it was when loaded
    struct Seg { u8 *p; size_t n; vector<u8> save; };
    vector<Seg> segs;
};
