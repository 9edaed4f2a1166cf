P = r'''
#include <cli/cli.h>
#include <cli/clifilesession.h>
#include <cli/filehistorystorage.h>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <vector>
#include <string>
#include <memory>
using namespace cli;
typedef std::vector<std::string> VS;
#define CHECK(c) do { if (!(c)) { std::cerr << "failed: " #c "\n"; return 1; } } while (0)
static bool has(const std::string& s, const std::string& t) { return s.find(t) != std::string::npos; }
'''

seed('c02-token', 'C02', [('cli.h', 'cli.StdExceptionHandler(out, cmd, e);', 'cli.StdExceptionHandler(out, strs[0], e);')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("cli");
    root->Insert("t", [](std::ostream&, int){ throw std::runtime_error("x"); });
    Cli c(std::move(root));
    std::string line;
    c.StdExceptionHandler([&](std::ostream&, const std::string& l, const std::exception&){ line = l; });
    std::ostringstream o; CliSession s(c, o);
    s.Feed("t 7");
    CHECK(line == "t 7");
}''', 'a line with parameters', 'the handler gets the first token instead of the line')

seed('c02-freeform', 'C02', [('cli.h', '''                func(session.OutStream(), std::vector<std::string>(std::next(cmdLine.begin()), cmdLine.end()));
                return true;''', '''                try
                {
                    func(session.OutStream(), std::vector<std::string>(std::next(cmdLine.begin()), cmdLine.end()));
                }
                catch (const std::out_of_range&)
                {
                    return false; // the handler has been given too few parameters
                }
                return true;''')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("cli");
    root->Insert("t", [](std::ostream&, const VS& v){ v.at(3); });
    Cli c(std::move(root));
    int n = 0;
    c.StdExceptionHandler([&](std::ostream&, const std::string&, const std::exception&){ ++n; });
    std::ostringstream o; CliSession s(c, o);
    s.Feed("t 7");
    CHECK(n == 1); CHECK(!has(o.str(), "wrong"));
}''', 'a free form command throwing std::out_of_range', 'the exception is taken for a wrong command')

seed('c03-prefix', 'C03', [('cli.h', '''            assert(!cmdLine.empty());
            if (Name() == cmdLine[0])''', '''            assert(!cmdLine.empty());
            if (Name().compare(0, Name().size(), cmdLine[0], 0, Name().size()) == 0)''')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("cli");
    int n = 0;
    root->Insert("foo", [&](std::ostream&, const VS& v){ ++n; });
    Cli c(std::move(root));
    std::ostringstream o; CliSession s(c, o);
    s.Feed("foo 7"); CHECK(n == 1);
    s.Feed("foobar 7"); CHECK(n == 1);
}''', 'a free form command and a line starting with a longer word', 'the handler runs for another name')

seed('c04-through', 'C04', [('cli.h', '''            if (!IsEnabled())
                return false;

            assert(!cmdLine.empty());''', '''            if (!IsEnabled() && cmdLine.size() == 1)
                return false;

            assert(!cmdLine.empty());''')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("cli");
    auto sub = std::make_unique<Menu>("m");
    int n = 0;
    sub->Insert("x", [&](std::ostream&){ ++n; });
    auto h = root->Insert(std::move(sub));
    Cli c(std::move(root));
    std::ostringstream o; CliSession s(c, o);
    s.Feed("m x"); CHECK(n == 1);
    h.Disable();
    s.Feed("m"); s.Feed("m x"); CHECK(n == 1);
}''', 'a disabled menu named in front of one of its commands', 'the commands of a disabled menu run')

seed('c04-complete', 'C04', [('cli.h', '''            if (!enabled) return {};
            if (name.rfind(line, 0) == 0) return {name};''', '''            if (!enabled && line.empty()) return {};
            if (name.rfind(line, 0) == 0) return {name};''')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("cli");
    auto h = root->Insert("foo", [&](std::ostream&){});
    Cli c(std::move(root));
    std::ostringstream o; CliSession s(c, o);
    CHECK(s.GetCompletions("f") == VS{"foo"});
    h.Disable();
    CHECK(s.GetCompletions("f").empty());
}''', 'completion of the beginning of the name of a disabled command', 'a disabled command is offered')

seed('c05-swap', 'C05', [('cli.h', '''                    if (i != scmds->end())
                        scmds->erase(i);''', '''                    if (i != scmds->end())
                    {
                        std::swap(*i, scmds->back());
                        scmds->pop_back();
                    }''')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("cli");
    std::string t;
    auto h = root->Insert("a", [&](std::ostream&){});
    root->Insert("b", [&](std::ostream&){ t += "1"; });
    root->Insert("b", [&](std::ostream&){ t += "2"; });
    Cli c(std::move(root));
    std::ostringstream o; CliSession s(c, o);
    h.Remove();
    s.Feed("b"); CHECK(t == "1");
}''', 'removal of a command in front of two commands with the same name', 'the other commands change their order')

seed('c05-owner', 'C05', [('cli.h', '''                if (auto c = cmd.lock())
                    c->Enable();''', '''                if (auto c = cmd)
                    c->Enable();'''), ('cli.h', '''                if(auto c = cmd.lock())
                    c->Disable();''', '''                if(auto c = cmd)
                    c->Disable();'''), ('cli.h', 'auto scmd = cmd.lock();', 'auto scmd = cmd;'), ('cli.h', 'std::weak_ptr<Command> cmd;', 'std::shared_ptr<Command> cmd;'),
                         ('cli.h', 'cmd(std::move(c)), cmds(std::move(v))', 'cmd(c.lock()), cmds(std::move(v))')], P + r'''
int main() {
    auto token = std::make_shared<int>(1);
    std::weak_ptr<int> w = token;
    auto root = std::make_unique<Menu>("cli");
    auto h = root->Insert("a", [token](std::ostream&){});
    token.reset();
    CHECK(!w.expired());
    root.reset();
    CHECK(w.expired());
}''', 'a handle that outlives its menu', 'the handle keeps the command alive')

seed('c06-moved', 'C06', [('cli.h', '''                        if (cmd->Exec( subCmdLine, session )) return true;
                    return''', '''                        if (cmd->Exec( subCmdLine, session )) return true;
                    if (parent == nullptr) session.Current(this);
                    return''')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("top");
    auto sub = std::make_unique<Menu>("m");
    int n = 0;
    sub->Insert("x", [&](std::ostream&){ ++n; });
    root->Insert(std::move(sub));
    Cli c(std::move(root));
    std::ostringstream o; CliSession s(c, o);
    s.Feed("m"); s.Feed(".. nosuch"); s.Feed("x");
    CHECK(n == 1);
}''', 'a wrong command after the parent shortcut', 'the session moves to the root menu although nothing was accepted')

seed('c06-dotdot', 'C06', [('cli.h', 'return HandleCommand({Name(), ParentShortcut()}, cmdLine, session);',
   'return HandleCommand({Name(), ParentShortcut()}, cmdLine, session) || (cmdLine[0] == ParentShortcut() && parent && parent->ExecParent(cmdLine, session));')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("top");
    auto a = std::make_unique<Menu>("a");
    auto b = std::make_unique<Menu>("b");
    int n = 0;
    b->Insert("x", [&](std::ostream&){ ++n; });
    a->Insert(std::move(b));
    auto h = root->Insert(std::move(a));
    Cli c(std::move(root));
    std::ostringstream o; CliSession s(c, o);
    s.Feed("a"); s.Feed("b");
    h.Disable();
    s.Feed(".."); s.Feed("x");
    CHECK(n == 1);
}''', 'the parent shortcut while the enclosing menu is disabled', 'the session moves to the menu enclosing the enclosing one')

seed('c07-quoteword', 'C07', [('detail/split.h', '''            if (new_type == sentence_type)
                state = State::space;''', '''            if (new_type == sentence_type)
                state = State::word;''')], P + r'''
int main() {
    VS v;
    detail::split(v, "\"a b\"c"); CHECK((v == VS{"a b", "c"}));
}''', 'a character right after a closing quote', 'the token goes on after the closing quote')

seed('c08-sign', 'C08', [('detail/fromstring.h', '''    const U val = unsigned_digits_from_string<U>(s);
    if (val > static_cast<U>( std::numeric_limits<T>::max() ))
        throw bad_conversion();
    return static_cast<T>(val);''', '''    const U val = unsigned_from_string<U>(s);
    if (val > static_cast<U>( std::numeric_limits<T>::max() ))
        throw bad_conversion();
    return static_cast<T>(val);''')], P + r'''
int main() {
    try { detail::from_string<int>("++5"); } catch (const std::bad_cast&) { return 0; }
    return 1;
}''', 'a positive number with two signs', 'the token is accepted')

seed('c08-wrap', 'C08', [('detail/fromstring.h', 'if (result != ((tmp-digit)/10) || (tmp < result))', 'if (tmp < result)')], P + r'''
int main() {
    int bad = 0;
    try { detail::from_string<unsigned char>("300"); ++bad; } catch (const std::bad_cast&) { }
    try { detail::from_string<unsigned char>("999"); ++bad; } catch (const std::bad_cast&) { }
    try { detail::from_string<unsigned int>("8589934590"); ++bad; } catch (const std::bad_cast&) { }
    try { detail::from_string<unsigned int>("6000000000"); ++bad; } catch (const std::bad_cast&) { }
    return bad ? 1 : 0;
}''', 'a number whose wrapped value is larger than its leading part', 'the value wraps')

seed('c08-bool', 'C08', [('detail/fromstring.h', 'if (value == 1) return true;', 'if (value & 1) return true;')], P + r'''
int main() {
    int bad = 0;
    for (auto t: {"3", "-1", "7"}) try { detail::from_string<bool>(t); ++bad; } catch (const std::bad_cast&) { }
    return bad ? 1 : 0;
}''', 'an odd number for a bool parameter', 'it is taken for true')

seed('c10-number', 'C10', [('detail/history.h', "out << IndexToId(j) << '\\t' << buffer[j] << '\\n';", "out << i << '\\t' << buffer[j] << '\\n';")], P + r'''
int main() {
    detail::History h(2);
    h.NewCommand("a"); h.NewCommand("b"); h.NewCommand("c");
    std::ostringstream o; h.Show(o);
    std::istringstream in(o.str());
    std::size_t n; std::string t; int k = 0;
    while (in >> n >> t) { ++k; try { CHECK(h.At(n) == t); } catch (const std::exception&) { return 1; } }
    CHECK(k == 2);
}''', 'a history that has dropped entries', 'the numbers listed are not those recalled')

seed('c11-oldest', 'C11', [('detail/history.h', '''            buffer[current] = line;
            if (current != buffer.size()-1)
                ++current;''', '''            if (current != buffer.size()-1)
            {
                buffer[current] = line;
                ++current;
            }''')], P + r'''
int main() {
    detail::History h(10);
    h.NewCommand("a"); h.NewCommand("b");
    CHECK(h.Previous("x") == "b");
    CHECK(h.Previous("b") == "a");
    CHECK(h.Previous("a2") == "a2");
    CHECK(h.Next() == "b");
    CHECK(h.Previous("b") == "a2");
}''', 'editing the oldest entry and going up', 'the edited line is lost')

seed('c11-dup', 'C11', [('detail/history.h', "if (buffer.size() > 1 && buffer[1] == item) // try", "if (buffer.size() > 1 && std::find(buffer.begin()+1, buffer.end(), item) != buffer.end()) // try"), ('detail/history.h', '#include <deque>', '#include <deque>\n#include <algorithm>')], P + r'''
int main() {
    detail::History h(10);
    h.NewCommand("a"); h.NewCommand("b");
    h.Previous(""); h.Previous("b");
    h.NewCommand("a");
    CHECK(h.Previous("") == "a");
}''', 'entering an older entry found by going up twice', 'the line entered is not kept')

seed('c12-order', 'C12', [('cli.h', '''            history.ForgetLatest();
            const auto cmd = history.At(index);''', '''            const auto cmd = history.At(index);
            history.ForgetLatest();''')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("cli");
    Cli c(std::move(root));
    std::ostringstream o; CliSession s(c, o);
    s.Feed("! 0");
    CHECK(has(o.str(), "Index not found"));
}''', 'recalling the number of the recall command itself', 'the recall command runs itself without end')

seed('c14-insert', 'C14', [('filehistorystorage.h', '''        if (commands.size() > maxSize)
            commands.erase(''', '''        if (commands.size() > maxSize && cmds.size() <= maxSize)
            commands.erase(''')], P + r'''
int main() {
    FileHistoryStorage f("h.txt", 2);
    f.Store({"a", "b", "c", "d"});
    CHECK((f.Commands() == VS{"c", "d"}));
}''', 'more new commands than the storage can hold', 'the storage exceeds its limit')

seed('c14-blank', 'C14', [('filehistorystorage.h', 'while (std::getline(in, line))', 'while (std::getline(in >> std::ws, line))')], P + r'''
int main() {
    FileHistoryStorage f("h.txt", 5);
    f.Store({"a", "  b"});
    CHECK((f.Commands() == VS{"a", "  b"}));
}''', 'a command that starts with blanks', 'the command is read back without them')

seed('c15-nothing', 'C15', [('cli.h', '''            cli.ExitAction(out);

            auto cmds = history.GetCommands();
            cli.StoreCommands(cmds);''', '''            auto cmds = history.GetCommands();
            if (cmds.empty()) return; // nothing to store

            cli.ExitAction(out);
            cli.StoreCommands(cmds);''')], P + r'''
int main() {
    Cli c(std::make_unique<Menu>("cli"));
    int n = 0;
    c.ExitAction([&](std::ostream&){ ++n; });
    std::ostringstream o; CliSession s(c, o);
    s.Exit();
    CHECK(n == 1);
}''', 'a session that exits without a command entered', 'the exit action of the application is not run')

seed('c16-last', 'C16', [('clifilesession.h', '''            if (in.eof())
                Exit();
            else
                Feed(line);''', '''            if (in.eof())
                Exit();
            else if (!line.empty() && line[0] != '#')
                Feed(line);''')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("cli");
    int n = 0;
    root->Insert("#x", [&](std::ostream&){ ++n; });
    Cli c(std::move(root));
    std::istringstream in("#x\nexit\n"); std::ostringstream o;
    CliFileSession s(c, in, o); s.Start();
    CHECK(n == 1);
}''', 'a line that starts with #', 'the line is not fed')

seed('c23-case', 'C23', [('cli.h', 'if (name.rfind(line, 0) == 0) return {name};', 'if (name.rfind(line) != std::string::npos && (line.size() > 2 || name.rfind(line, 0) == 0)) return {name};')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("cli");
    root->Insert("foobar", [&](std::ostream&){});
    Cli c(std::move(root));
    std::ostringstream o; CliSession s(c, o);
    CHECK(s.GetCompletions("bar").empty());
}''', 'three or more characters from the middle of a name', 'a command that does not continue the line is offered')

seed('c29-overflow', 'C29', [('cli.h', '''            for (auto os: ostreams)
                *os << static_cast<char>(c);
            return c;''', '''            for (auto os: ostreams)
                if (*os && c != '\\n')
                    *os << static_cast<char>(c);
                else
                    *os << std::endl;
            return c;''') if False else ('cli.h', '''                os->rdbuf()->sputn(s, n);
            return n;''', '''                if (os->tellp() >= 0 || ostreams.size() == 1)
                    os->rdbuf()->sputn(s, n);
            return n;''')], P + r'''
struct B : std::streambuf {
    std::string t;
    std::streamsize xsputn(const char* s, std::streamsize n) override { t.append(s, static_cast<std::size_t>(n)); return n; }
    int overflow(int c) override { t += static_cast<char>(c); return c; }
};
int main() {
    Cli c(std::make_unique<Menu>("cli"));
    B a, b; std::ostream oa(&a), ob(&b);
    CliSession s1(c, oa), s2(c, ob);
    Cli::cout() << "hello" << std::flush;
    CHECK(has(a.t, "hello")); CHECK(has(b.t, "hello"));
}''', 'two sessions on streams that are not seekable', 'the global output does not reach them')

seed('c33-wrong', 'C33', [('cli.h', 'void ExitAction(const std::function< void(std::ostream&)>& action) { exitAction = action; }', 'void ExitAction(const std::function< void(std::ostream&)>& action) { if (action) exitAction = action; }')], P + r'''
int main() {
    Cli c(std::make_unique<Menu>("cli"));
    int n = 0;
    c.ExitAction([&](std::ostream&){ ++n; });
    c.ExitAction(nullptr);
    std::ostringstream o; CliSession s(c, o);
    s.Exit();
    CHECK(n == 0);
}''', 'an action set and later unset', 'the former action runs')

seed('c34-parents', 'C34', [('cli.h', '''            if (parent != nullptr)
                parent->Help(out);
        }

        void Help(''', '''            if (parent != nullptr && parent->parent == nullptr)
                parent->Help(out);
        }

        void Help(''')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("top");
    auto a = std::make_unique<Menu>("amenu");
    a->Insert(std::make_unique<Menu>("bmenu"));
    root->Insert(std::move(a));
    Cli c(std::move(root));
    std::ostringstream o; CliSession s(c, o);
    s.Feed("amenu"); s.Feed("bmenu");
    o.str("");
    s.Feed("help");
    CHECK(has(o.str(), "amenu"));
}''', 'a session two menus below the root', 'the enclosing menu is not listed')

seed('c34-types', 'C34', [('cli.h', 'typename std::decay<P>::type >::Name();\n            PrintDesc<Args...>::Dump(out);', 'typename std::decay<P>::type >::Name();\n            if (sizeof...(Args) > 1) PrintDesc<Args...>::Dump(out);')], P + r'''
int main() {
    auto root = std::make_unique<Menu>("top");
    root->Insert("cmd", [](std::ostream&, int, double){});
    Cli c(std::move(root));
    std::ostringstream o; CliSession s(c, o);
    s.Feed("help");
    CHECK(has(o.str(), "<int> <double>"));
}''', 'a command with two parameters without names', 'the type of the last parameter is not shown')
