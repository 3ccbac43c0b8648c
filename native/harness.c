/* Replays properties against the real library: harness PROPERTY SEED COUNT
 * prints "FAIL ..." and exits 3 at the first failing case. */
#include "gen.h"
static const char *prop;
static unsigned long long caseseed;
static int fails(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  printf("FAIL property=%s case-seed=%llu: ", prop, caseseed);
  vprintf(fmt, ap);
  va_end(ap);
  printf("\n");
  fflush(stdout);
  _exit(3);
}
#define OK(c) do { char *r_ = (c); if (r_) fails("%s: %s", #c, r_); } while (0)
#define REQ(c, ...) do { if (!(c)) fails(__VA_ARGS__); } while (0)

#include "p_dup.h"
#include "p_flt.h"
#include "p_iter.h"
#include "p_date.h"
#include "p_file.h"
#include "p_filter.h"
#include "p_merge.h"
#include "p_check.h"
#include "p_io.h"
#include "p_alloc.h"

static struct { const char *id; void (*f)(void); } P[] = {
  {"dup", p_dup},
  {"iter", p_iter},
  {"date", p_date},
  {"lookup", p_lookup},
  {"version", p_version},
  {"count", p_count},
  {"filter", p_filter},
  {"merge", p_merge},
  {"check", p_check},
  {"trip", p_trip},
  {"file", p_file},
  {"status", p_status},
  {"alloc", p_alloc},
};
int main(int argc, char **argv)
{
  unsigned long long seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  long n = argc > 3 ? atol(argv[3]) : 200, i;
  unsigned k;
  int found = 0;
  if (!getenv("H_STDERR")) freopen("/dev/null", "w", stderr) ? 0 : 0;
  for (k = 0; k < sizeof P / sizeof P[0]; k++)
    if (!strcmp(P[k].id, argv[1]))
    {
      found = 1;
      prop = argv[1];
      for (i = 0; i < n; i++)
      {
        caseseed = seed + (unsigned long long)i;
        rs = caseseed * 0x9E3779B97F4A7C15ULL + 0x1234567;
        { int w; for (w = 0; w < 8; w++) rnd(); }
        P[k].f();
      }
    }
  if (!found) return 9;
  printf("OK %ld cases\n", n);
  return 0;
}
