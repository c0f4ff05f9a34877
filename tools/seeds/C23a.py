ID='C23-range-of-letters'; PROP='C23'
NEEDS='one of the six characters between Z and a'
BREAKS='paths with brackets, backslash, caret or backquote are accepted'
EDITS=[('lib/Plugin/Path.cpp','''            if (name[i] >= 'A' and name[i] <= 'Z') continue;
            if (name[i] >= 'a' and name[i] <= 'z') continue;''','''            if (name[i] >= 'A' and name[i] <= 'z') continue;''')]
DEMO=r'''#include <Pothos/Plugin.hpp>
int main(){ try { Pothos::PluginPath p("/a/b[0]"); return 1; } catch (const Pothos::PluginPathError &) { return 0; } }
'''
