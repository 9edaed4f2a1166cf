// Instantiates the templates of the library (core, no asio) through its public API.
// The macros on file descriptor sets become calls, which the analysis can see.
#include <sys/select.h>
#undef FD_ZERO
#undef FD_SET
#undef FD_CLR
#undef FD_ISSET
extern "C" void vf_fd_zero(fd_set* s);
extern "C" void vf_fd_set(int fd, fd_set* s);
extern "C" void vf_fd_clr(int fd, fd_set* s);
extern "C" int vf_fd_isset(int fd, const fd_set* s);
#define FD_ZERO(s) vf_fd_zero(s)
#define FD_SET(fd, s) vf_fd_set(fd, s)
#define FD_CLR(fd, s) vf_fd_clr(fd, s)
#define FD_ISSET(fd, s) vf_fd_isset(fd, s)
#include <cli/cli.h>
#include <cli/loopscheduler.h>
#include <cli/clifilesession.h>
#include <cli/clilocalsession.h>
#include <cli/filehistorystorage.h>
#include <cli/volatilehistorystorage.h>
#include <istream>

namespace harness
{
struct UserType { int a; };
std::istream& operator>>(std::istream& in, UserType& u);
std::ostream& operator<<(std::ostream& out, const UserType& u);

void FreeFun(std::ostream& out, int a, const std::string& b);
void FreeFun0(std::ostream& out);

void instantiate(cli::Menu& menu, cli::Cli& c, cli::Scheduler& s)
{
    menu.Insert("f0", [](std::ostream&){}, "");
    menu.Insert("f1", [](std::ostream&, int){}, "", {"a"});
    menu.Insert("f2", [](std::ostream&, int, const std::string&){});
    menu.Insert("f3", [](std::ostream&, unsigned, double, bool){});
    menu.Insert("f4", {"par"}, [](std::ostream&, char, long long){}, "help");
    menu.Insert("i1", [](std::ostream&, signed char, short, long, unsigned char){});
    menu.Insert("i2", [](std::ostream&, unsigned short, unsigned long, unsigned long long){});
    menu.Insert("fl", [](std::ostream&, float, long double){});
    menu.Insert("u", [](std::ostream&, UserType){});
    menu.Insert("ff1", [](std::ostream&, const std::vector<std::string>&){}, "");
    menu.Insert("ff2", [](std::ostream&, std::vector<std::string>){}, "");
    menu.Insert("fp", &FreeFun, "");
    menu.Insert("fp0", &FreeFun0, "");
    auto h = menu.Insert(std::make_unique<cli::Menu>("sub", "desc"));
    h.Enable(); h.Disable(); h.Remove();
    cli::CmdHandler e; e.Enable();
    cli::LoopScheduler ls;
    ls.Post([](){}); ls.Run(); ls.ExecOne(); ls.PollOne(); ls.Stop(); (void)ls.Stopped();
    cli::CliFileSession fs(c); fs.Start();
    cli::CliLocalTerminalSession loc(c, s, std::cout);
    cli::FileHistoryStorage f("x"); cli::VolatileHistoryStorage v;
    cli::SetColor(); cli::SetNoColor();
    cli::Cli::cout() << "x";
}
} // namespace harness
