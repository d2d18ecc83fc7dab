// The command line tool, as a function.
#define main swarmdb_main
#include "db/main.cc"
