// Octave front ends, bounded-exhaustive.   oct_enum OCTDIR COREDIR PROP TIER ...
#include "enumr.h"
#include "leak.h"
#define FE_LEAKS
#include "oct_host.h"
#include "oct_conv.h"
#include "oct_api.h"
#include "oct_more.h"
#include <memory>

extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  static fe::pc_t real = (fe::pc_t)dlsym(RTLD_NEXT, "pthread_create");
  fe::before_create();
  return real(t, a, f, x);
}

int main(int argc, char **argv) {
  if (argc < 5) return 3;
  if (!getenv("OPENBLAS_NUM_THREADS")) { setenv("OPENBLAS_NUM_THREADS", "1", 1); execv("/proc/self/exe", argv); }  // no threads of the host's libraries
  string prop = argv[3];
  bool th = string(argv[4]) == "thorough";
  std::unique_ptr<OctHost> host;
  try { host.reset(new OctHost(argv[1])); } catch (const std::exception &e) { fprintf(stderr, "octave: %s\n", e.what()); return 3; }
  vector<Space> s;
  if (prop == "P13") p13(*host, s, th, load_family(argv[2], "fftconv_p"));
  if (prop == "P14") p14(*host, s, th);
  if (prop == "P15") p15(*host, s, th);
  api::Drivers ds; ds.dir = argv[2];
  OctApi api(*host, argv[1]);
  if (prop == "P10") more::p10(api, ds, s, th);
  if (prop == "P11") more::p11(api, ds, s, th);
  if (prop == "P17") fe::p17(api, ds, s, th);
  if (prop == "P18") fe::p18(api, ds, s, th);
  fe::p19(api, ds, s, th, prop);
  if (prop == "P23") fe::p23(api, ds, s, th);
  if (prop == "P20") fe::p20(api, ds, s, th);
  int rc = en::run(argc - 4, argv + 4, s);
  fflush(stdout);
  _exit(rc);
}
