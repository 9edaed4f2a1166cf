seed('c01-noparent-global', 'C01', [('cli.h',
 '''                else
                {
                    // check also for subcommands
                    std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());''',
 '''                else
                {
                    if (cmdLine.size() == 2 && cmdLine[1] == cmdLine[0]) return false;
                    // check also for subcommands
                    std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());''')],
r'''
#include <cli/cli.h>
#include <sstream>
using namespace cli;
int main() {
    auto root = std::make_unique<Menu>("cli");
    auto sub = std::make_unique<Menu>("m");
    int n = 0;
    sub->Insert("m", [&](std::ostream&){ ++n; });
    root->Insert(std::move(sub));
    Cli c(std::move(root));
    std::ostringstream o;
    CliSession s(c, o);
    s.Feed("m m");
    return n == 1 && o.str().find("wrong") == std::string::npos ? 0 : 1;
}
''', 'a sub menu containing a command with the same name as the menu', 'the command of the sub menu is skipped and the line is reported as wrong')

seed('c01-sub-continues', 'C01', [('cli.h',
 '''            if (!found) found = CurrentMenu()->ScanCmds(strs, *this);''' if False else '''            for (auto cmd: *cmds)
                if (cmd->Exec(cmdLine, session))
                    return true;
            assert(!cmdLine.empty());''' , '''            bool found = false;
            for (auto cmd: *cmds)
                if (cmd->Exec(cmdLine, session))
                {
                    found = true;
                    if (cmdLine.size() < 3) return true;
                }
            if (found) return true;
            assert(!cmdLine.empty());''')],
r'''
#include <cli/cli.h>
#include <sstream>
using namespace cli;
int main() {
    auto root = std::make_unique<Menu>("cli");
    int n = 0;
    root->Insert("add", [&](std::ostream&, int, int){ ++n; });
    root->Insert("add", [&](std::ostream&, std::string, std::string){ ++n; });
    Cli c(std::move(root));
    std::ostringstream o;
    CliSession s(c, o);
    s.Feed("add 1 2");
    return n == 1 ? 0 : 1;
}
''', 'two overloads of a command with at least two parameters that both accept the line', 'the second overload runs too')

seed('c01-wrong-in-sub', 'C01', [('cli.h',
 '''return (parent && parent->ExecParent(subCmdLine, session));''', '''return (parent && subCmdLine.size() > 1 && parent->ExecParent(subCmdLine, session));''')],
r'''
#include <cli/cli.h>
#include <sstream>
using namespace cli;
int main() {
    auto root = std::make_unique<Menu>("cli");
    auto sub = std::make_unique<Menu>("m");
    root->Insert(std::move(sub));
    Cli c(std::move(root));
    std::ostringstream o;
    CliSession s(c, o);
    s.Feed("m ..");
    bool ok = o.str().find("wrong") == std::string::npos;
    s.Feed("m cli m");
    return ok && o.str().find("wrong") == std::string::npos ? 0 : 1;
}
''', 'the parent shortcut alone after a menu name', 'the enclosing menu is not tried for a single remaining token')
