/* a shared object with symbols to strip */
int dep_helper(int x) { return x + 1; }
static int inner(int x) { return dep_helper(x) * 3; }
int dep_call(int x) { return inner(x); }
