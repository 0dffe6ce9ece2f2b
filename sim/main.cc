#include "core.h"
int main(int argc, char** argv) { return sim::driver_main(argc, argv); }
