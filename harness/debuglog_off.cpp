#undef DEBUG_SERIAL_OUT
#include "Debug.h"
#include "debuglog_off.h"
static int touch(int& n) { return ++n; }
int releaseBuildStatements(int& evaluated)
{
    int statements = 0;
    for (int i = 0; i < 3; ++i) { ++statements; DEBUG_LOG("value " << touch(evaluated) << " of " << i); }
    if (statements == 3) DEBUG_LOG(touch(evaluated));
    (void)&touch;
    return statements;
}
