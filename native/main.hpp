// common driver: prog mode seed count [cpu seconds]
# pragma once
namespace orc { int ndir = 0; int order = 0; }
long n_eval = 0, n_nontriv = 0;
typedef std::vector<double> dv;
static std::string one(const char* mode, unsigned long long seed);
static bool sample_due() { static int k = 0; return ++k <= 2; }
static void sample(const std::string& s) { if( sample_due() ) printf("SAMPLE\t%s\n", s.c_str()); }
int main(int argc, char** argv) {
   setvbuf(stdout, 0, _IOLBF, 0); const char* mode = argv[1]; unsigned long long seed = strtoull(argv[2], 0, 10); long count = atol(argv[3]);
   long bad = 0; double limit = argc > 4 ? atof(argv[4]) : 1e9; clock_t t0 = clock();
   for(long i = 0; i < count; ++i) {
      unsigned long long s = seed * 1000003ull + i;
      if( count == 1 ) s = seed;
# ifdef PROG_ATOMIC
      std::string d = atomic_case([&]() { return one(mode, s); });
# else
      std::string d = one(mode, s);
# endif
      if( ! d.empty() ) { report(mode, s, d); if( ++bad >= 3 ) break; }
      if( (i & 63) == 0 && double(clock() - t0) / CLOCKS_PER_SEC > limit ) break;
   }
   printf("DONE\t%ld\t%ld\t%ld\n", n_eval, n_nontriv, bad);
   return 0;
}
