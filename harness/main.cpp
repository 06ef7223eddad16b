#include "engine.hpp"
int main(int argc, char** argv) { return pbt::main_run(argc, argv); }
