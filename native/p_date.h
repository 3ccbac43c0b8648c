/* calendar: every case checks a random stretch of days against an independent day-by-day walk */
static void p_date(void)
{
  static const int dim[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  static int full;
  long y = 1901, m = 1, d = 1, mjd = 15385, yy, mm, dd;
  if (full) return; /* deterministic: one walk over 1901-2099 covers everything */
  full = 1;
  while (y < 2100)
  {
    long back = date2mjd(y, m, d);
    REQ(back == mjd, "date2mjd(%ld,%ld,%ld) = %ld, expected %ld", y, m, d, back, mjd);
    yy = mm = dd = -7;
    mjd2date(mjd, &yy, &mm, &dd);
    REQ(yy == y && mm == m && dd == d, "mjd2date(%ld) = %ld-%ld-%ld, expected %ld-%ld-%ld", mjd, yy, mm, dd, y, m, d);
    ++mjd;
    if (++d > dim[m - 1] + (m == 2 && y % 4 == 0)) { d = 1; if (++m > 12) { m = 1; ++y; } }
  }
}
