//   load LIB OUT key=value...: runs the recorder compiled into LIB
#include <dlfcn.h>
#include <cstdio>
#include <string>
int main(int argc, char** argv) {
    if (argc < 3) return 2; std::string o; for (int i = 3; i < argc; i++) o += std::string(argv[i]) + " ";
    void* h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    auto f = (int (*)(const char*, const char*))dlsym(h, "ccm_run"); return f ? f(argv[2], o.c_str()) : 2;
}
