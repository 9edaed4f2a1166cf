// Instantiates the asio dependent templates of the library (standalone flavour) through its public API.
#include <cli/cli.h>
#include <cli/standaloneasioscheduler.h>
#include <cli/standaloneasioremotecli.h>
#include <cli/standaloneasiocliasyncsession.h>
#include <cli/clilocalsession.h>

namespace harness
{
void instantiate(cli::Cli& c, cli::StandaloneAsioScheduler::ContextType& ctx)
{
    cli::StandaloneAsioScheduler s;
    cli::StandaloneAsioScheduler s2(ctx);
    s.Run(); s.Stop(); (void)s.Stopped(); s.ExecOne(); s.PollOne(); s.Post([](){}); (void)s.AsioContext();
    cli::StandaloneAsioCliTelnetServer server(c, s, 5000);
    cli::StandaloneAsioCliTelnetServer server2(c, s, std::string{"127.0.0.1"}, 5000);
    server.ExitAction([](std::ostream&){});
    server.EnterAction([](std::ostream&){});
    cli::StandaloneAsioCliAsyncSession as(s, c);
    cli::CliLocalTerminalSession loc(c, s, std::cout);
}
} // namespace harness
