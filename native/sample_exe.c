/* a program which needs libdep.so */
int dep_call(int);
static int before(int x) { return x + 40; }
int main(int argc, char** argv) { return dep_call(before(argc)) == 126 ? 0 : 1; }
