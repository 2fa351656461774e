#include "core.h"

int main(int argc, char** argv)
{
    return sim::main(argc, argv);
}
