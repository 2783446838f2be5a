struct m { double d; long n; };
long take(struct m v) { return (long)(v.d * 4) + v.n; }
struct m give(long n) { struct m v = { n / 8.0, n }; return v; }
