#include <libnuraft/nuraft.hxx>
