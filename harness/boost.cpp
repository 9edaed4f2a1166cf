// Instantiates the asio dependent templates of the library (boost flavour) through its public API.
#include <cli/cli.h>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
#include <cli/boostasiocliasyncsession.h>
#include <cli/clilocalsession.h>

namespace harness
{
void instantiate(cli::Cli& c, cli::BoostAsioScheduler::ContextType& ctx)
{
    cli::BoostAsioScheduler s;
    cli::BoostAsioScheduler s2(ctx);
    s.Run(); s.Stop(); (void)s.Stopped(); s.ExecOne(); s.PollOne(); s.Post([](){}); (void)s.AsioContext();
    cli::BoostAsioCliTelnetServer server(c, s, 5000);
    cli::BoostAsioCliTelnetServer server2(c, s, std::string{"127.0.0.1"}, 5000);
    server.ExitAction([](std::ostream&){});
    server.EnterAction([](std::ostream&){});
    cli::BoostAsioCliAsyncSession as(s, c);
    cli::CliLocalTerminalSession loc(c, s, std::cout);
}
} // namespace harness
