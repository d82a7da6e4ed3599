// One header at a time, first and twice: it must bring what it needs, and have an include guard.
#include NZ_HEADER
#include NZ_HEADER
int main() {}
