B = P + r'''
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
#include <cli/loopscheduler.h>
#include <cli/detail/terminal.h>
#include <cli/detail/screen.h>
#include <cli/detail/commandprocessor.h>
#include <thread>
#include <atomic>
#include <chrono>
#include <functional>
#include <queue>
#include <unistd.h>
#include <fcntl.h>
#include <stdlib.h>
#include <termios.h>
#include <sys/resource.h>
using detail::KeyType;
namespace asio_ = boost::asio;
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
'''

seed('c09-ignore', 'C09', [('detail/fromstring.h', '!(interpreter >> std::ws).eof())', 'interpreter.rdbuf()->in_avail() > 1)')], P + r'''
struct Pt { int x; };
std::istream& operator>>(std::istream& i, Pt& p) { return i >> p.x; }
int main() {
    CHECK(detail::from_string<Pt>("7").x == 7);
    try { detail::from_string<Pt>("7x"); } catch (const std::bad_cast&) { return 0; }
    return 1;
}''', 'a streamed parameter followed by one extra character', 'the token is accepted')

seed('c13-count', 'C13', [('detail/history.h', '''                Insert(item);
                ++commands;
            }''', '''                Insert(item);
            }
            ++commands;''')], P + r'''
int main() {
    struct St : HistoryStorage { VS got; void Store(const VS& c) override { got = c; } VS Commands() const override { return {"old1", "old2", "x"}; } void Clear() override {} };
    auto stp = std::make_unique<St>(); St* st = stp.get();
    auto root = std::make_unique<Menu>("cli");
    root->Insert("x", [](std::ostream&){});
    Cli c(std::move(root), std::move(stp));
    { std::ostringstream o; CliSession s(c, o); s.Feed("x"); s.Exit(); }
    CHECK(st->got == VS{});
}''', 'the first command of the session repeats the last one loaded', 'a command loaded from the storage is stored again')

seed('c17-wake', 'C17', [('loopscheduler.h', '''        tasks.push(f);
        cv.notify_all();''', '''        tasks.push(f);
        if (tasks.size() == 1) cv.notify_one();''')], B + r'''
int main() {
    for (int k = 0; k < 5; ++k) {
        LoopScheduler s; std::atomic<bool> b{false}, a{false};
        std::thread t1([&]{ s.ExecOne(); }), t2([&]{ s.ExecOne(); });
        ms(50);
        std::atomic<bool> go{false};
        s.Post([&]{ for (int i = 0; i < 300 && !b; ++i) ms(10); a = true; });
        s.Post([&]{ b = true; });
        for (int i = 0; i < 100 && !b; ++i) ms(10);
        bool ok = b;
        if (!ok) _exit(1);
        t1.join(); t2.join();
    }
}''', 'two threads waiting, two tasks posted one after the other', 'the second thread is not woken', cmd='timeout 30 ./demo')

seed('c17-poppost', 'C17', [('loopscheduler.h', '''            task = tasks.front();
            tasks.pop();
        }

        if (task)
            task();

        return true;
    }

    bool PollOne()''', '''            task = tasks.front();
        }

        if (task)
            task();

        std::lock_guard<std::mutex> lck(mtx);
        tasks.pop();
        return true;
    }

    bool PollOne()''')], B + r'''
int main() {
    LoopScheduler s; int a = 0, b = 0;
    s.Post([&]{ if (++a < 3) s.PollOne(); });
    s.Post([&]{ ++b; });
    s.ExecOne();
    CHECK(a == 1); CHECK(b == 1);
}''', 'a task that runs the scheduler', 'the task runs twice')

seed('c18-eof', 'C18', [('detail/inputdevice.h', '''        scheduler.Post([this,k,token]''', '''        if (k.first == KeyType::eof && handler) handler(k);
        else scheduler.Post([this,k,token]''')], B + r'''
struct D : detail::InputDevice { using InputDevice::InputDevice; using InputDevice::Notify; };
int main() {
    LoopScheduler s; D d(s); int n = 0;
    d.Register([&](std::pair<KeyType,char>){ ++n; });
    d.Notify({KeyType::ascii, 'x'}); d.Notify({KeyType::eof, ' '});
    CHECK(n == 0);
    s.PollOne(); s.PollOne(); CHECK(n == 2);
}''', 'the end of the input', 'the session is used by the thread of the keyboard')

PTY = B + r'''
#include <cli/detail/keyboard.h>
struct Pty { int m; Pty() { m = posix_openpt(O_RDWR | O_NOCTTY); grantpt(m); unlockpt(m); int s = open(ptsname(m), O_RDWR | O_NOCTTY); dup2(s, 0); close(s); }
    void type(const std::string& t) { auto r = write(m, t.data(), t.size()); (void)r; } };
typedef std::pair<KeyType,char> K;
'''
seed('c19-notify', 'C19', [('detail/linuxkeyboard.h', '''        ToManualMode();
        std::lock_guard<std::mutex> lock(mtx);
        enabled = true;
        cv.notify_one();
    }

    void Read()''', '''        ToManualMode();
        cv.notify_one();
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
        std::lock_guard<std::mutex> lock(mtx);
        enabled = true;
    }

    void Read()''')], PTY + r'''
int main() {
    Pty p; LoopScheduler s; std::atomic<int> n{0};
    {
        detail::Keyboard kb(s); kb.Register([&](K){ ++n; });
        ms(50);
        kb.DeactivateInput();
        p.type("a"); ms(50);
        kb.ActivateInput(); ms(50);
        p.type("b"); ms(100);
        while (n < 2) { bool r = s.PollOne(); if (!r) break; }
        CHECK(n == 2);
    }
}''', 'input activated again while the thread waits for it', 'the thread is not woken')

seed('c19-stdin-first', 'C19', [('detail/linuxkeyboard.h', '''        if (FD_ISSET(readPipe, &rfds)) // stop called
        {
            close(readPipe);
            throw std::runtime_error("InputSource stop");
        }

        if (FD_ISSET(STDIN_FILENO, &rfds)) // char from stdinput
        {
            return;
        }
''', '''        if (FD_ISSET(STDIN_FILENO, &rfds)) // char from stdinput
        {
            return;
        }

        if (FD_ISSET(readPipe, &rfds)) // stop called
        {
            close(readPipe);
            throw std::runtime_error("InputSource stop");
        }
''')], PTY + r'''
struct Null : Scheduler { void Post(const std::function<void()>&) override {} };
int main() {
    int z = open("/dev/zero", O_RDONLY); dup2(z, 0);
    alarm(5);
    Null s; { detail::Keyboard kb(s); ms(50); }
}''', 'the keyboard is destroyed while input keeps coming', 'the thread never sees the request to stop')

seed('c20-retry', 'C20', [('detail/linuxkeyboard.h', '''        try
        {
            while (true)
            {''', '''        while (true)
        {
            try
            {'''), ('detail/linuxkeyboard.h', '''                Notify(k);
            }
        }
        catch(const std::exception&)
        {
            // nothing to do: just exit
        }''', '''                Notify(k);
            }
            catch(const std::exception& e)
            {
                if (std::string(e.what()) == "InputSource stop") return;
            }
        }''')], PTY + r'''
int main() {
    int z = open("/dev/null", O_RDONLY); dup2(z, 0);
    LoopScheduler s; int n = 0;
    detail::Keyboard kb(s); kb.Register([&](K k){ ++n; });
    ms(100);
    for (int i = 0; i < 1000; ++i) if (!s.PollOne()) break;
    CHECK(n == 1);
}''', 'the end of the standard input', 'the end of input is notified again and again')

SCR = B + r'''
struct Scr { std::string row; size_t col = 0; void put(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) { char c = s[i];
    if (c == 27) { while (i < s.size() && !isalpha(s[i])) ++i; continue; }
    if (c == '\b') { if (col) --col; } else if (c == '\r') col = 0; else if (c == '\n') row.clear(); else { if (row.size() <= col) row.resize(col + 1, ' '); row[col++] = c; } } }
    std::string text() { std::string r = row; while (!r.empty() && r.back() == ' ') r.pop_back(); return r; } };
'''
seed('c21-setline', 'C21', [('detail/terminal.h', '''        if (newLine.size() < currentLine.size())
        {
            out << std::string(currentLine.size() - newLine.size(), ' ');
            // and go back
            out << std::string(currentLine.size() - newLine.size(), '\\b') << std::flush;''', '''        if (newLine.size() < position)
        {
            out << std::string(position - newLine.size(), ' ');
            // and go back
            out << std::string(position - newLine.size(), '\\b') << std::flush;''')], SCR + r'''
int main() {
    std::ostringstream o; detail::Terminal<detail::TelnetScreen> t(o);
    for (char c: std::string("hello")) t.Keypressed({KeyType::ascii, c});
    for (int i = 0; i < 3; ++i) t.Keypressed({KeyType::left, ' '});
    t.SetLine("abc");
    Scr s; s.put(o.str());
    CHECK(s.text() == "abc");
}''', 'a line replaced by a shorter one with the cursor in the middle', 'the end of the old line stays on the screen')

seed('c21-canc', 'C21', [('detail/terminal.h', '''                // go back to the original position
                out << std::string(currentLine.size() - position, '\\b') << std::flush;
                // remove the char from buffer
                currentLine.erase(currentLine.begin() + pos);''', '''                // go back to the original position
                out << std::string(currentLine.size() - (position > 0 ? position : 1), '\\b') << std::flush;
                // remove the char from buffer
                currentLine.erase(currentLine.begin() + pos);''')], SCR + r'''
int main() {
    std::ostringstream o; o << "> "; detail::Terminal<detail::TelnetScreen> t(o);
    for (char c: std::string("hello")) t.Keypressed({KeyType::ascii, c});
    t.Keypressed({KeyType::home, ' '}); t.Keypressed({KeyType::canc, ' '}); t.Keypressed({KeyType::ascii, 'j'});
    Scr s; s.put(o.str());
    CHECK(s.text() == "> jello");
}''', 'delete with the cursor on the first character', 'cursor and screen disagree')

KEYS = B + r'''
struct D : detail::InputDevice { using InputDevice::InputDevice; using InputDevice::Notify; std::string log;
    void ActivateInput() override { log += 'A'; } void DeactivateInput() override { log += 'D'; } };
struct F { LoopScheduler s; std::ostringstream o; std::unique_ptr<Cli> c; std::unique_ptr<CliSession> ses; std::unique_ptr<D> d; std::unique_ptr<detail::CommandProcessor<detail::TelnetScreen>> p;
    F(std::unique_ptr<Menu> m) { c = std::make_unique<Cli>(std::move(m)); ses = std::make_unique<CliSession>(*c, o); d = std::make_unique<D>(s); p = std::make_unique<detail::CommandProcessor<detail::TelnetScreen>>(*ses, *d); }
    void key(KeyType k, char ch = ' ') { d->Notify({k, ch}); s.PollOne(); }
    void type(const std::string& t) { for (char ch: t) key(KeyType::ascii, ch); } };
'''
seed('c22-prefix', 'C22', [('detail/commandprocessor.h', 'if (commonPrefix.size() > line.size())', 'if (commonPrefix.size() != line.size())')], KEYS + r'''
int main() {
    auto root = std::make_unique<Menu>("cli"); std::string got;
    root->Insert("foo", [](std::ostream&){}); root->Insert("fob", [](std::ostream&){});
    F f(std::move(root));
    f.type("   fo"); f.o.str(""); f.key(KeyType::ascii, '\t');
    CHECK(has(f.o.str(), "\tfoo")); CHECK(has(f.o.str(), "\tfob"));
}''', 'completing a line that starts with blanks', 'the candidates are not listed')


seed('c22-trim', 'C22', [('detail/commandprocessor.h', '''                    terminal.SetLine(completions[0]+' ');''', '''                    if (completions[0].size() > line.size()) terminal.SetLine(completions[0]+' ');''')], KEYS + r'''
int main() {
    auto root = std::make_unique<Menu>("cli");
    root->Insert("foo", [](std::ostream&){});
    F f(std::move(root));
    f.type("foo"); f.o.str(""); f.key(KeyType::ascii, '\t'); f.type("x");
    CHECK(has(f.o.str(), " x"));
}''', 'tab on a word already complete', 'the blank is not added')

TEL = B + r'''
using asio_::ip::tcp;
struct T : detail::TelnetSession { using TelnetSession::TelnetSession; using TelnetSession::OnDataReceived; std::string got, sent;
    void Output(char c) override { got += c; } void Send(const std::string& s) override { sent += s; } };
struct C : detail::CliTelnetSession { using CliTelnetSession::CliTelnetSession; using CliTelnetSession::OnDataReceived; void Send(const std::string& s) override { sent += s; } std::string sent; };
'''
seed('c24-dont', 'C24', [('detail/genericasioremotecli.h', '''            case DONT:
                state = State::wait_dont;''', '''            case DONT:
                state = State::data;''')], TEL + r'''
int main() {
    asio_::io_context ios; tcp::socket so(ios); T t(std::move(so));
    t.OnDataReceived(std::string("a\xff\xfe\x01" "b", 5));
    CHECK(t.got == "ab");
}''', 'the peer sends DONT', 'the option becomes a character of the line')

seed('c24-packet', 'C24', [('detail/genericasioremotecli.h', '''        for (char c: _data)
            Consume(c);''', '''        for (char c: _data)
            Consume(c);
        if (state != State::sub) state = State::data;''')], TEL + r'''
int main() {
    asio_::io_context ios; tcp::socket so(ios); T t(std::move(so));
    t.OnDataReceived(std::string("a\xff\xfb", 3)); t.OnDataReceived(std::string("\x22" "b", 2));
    CHECK(t.got == "ab");
}''', 'a packet that ends between WILL and its option', 'the option becomes a character of the line')

seed('c24-subsb', 'C24', [('detail/genericasioremotecli.h', '''            if (c == IAC)
                Data(c);
            else
                Command(c);
            escape = false;''', '''            escape = false;
            if (c == IAC)
                Output(c);
            else
                Command(c);''')], TEL + r'''
int main() {
    asio_::io_context ios; tcp::socket so(ios); T t(std::move(so));
    t.OnDataReceived(std::string("a\xff\xfa\x1f\xff\xff\x10\xff\xf0" "b", 10));
    CHECK(t.got == "ab");
}''', 'a doubled escape byte in a subnegotiation', 'a byte of the subnegotiation becomes a character of the line')

seed('c25-esc', 'C25', [('detail/linuxkeyboard.h', '''                            if ( ch == 126 ) return std::make_pair(KeyType::canc,' ');
                            else return std::make_pair(KeyType::ignored,' ');''', '''                            if ( ch == 126 ) return std::make_pair(KeyType::canc,' ');
                            else return std::make_pair(ch == 59 ? KeyType::canc : KeyType::ignored,' ');''')], PTY + r'''
int main() {
    Pty p; LoopScheduler s; std::vector<K> ks;
    { detail::Keyboard kb(s); kb.Register([&](K k){ ks.push_back(k); }); ms(50);
      p.type("\x1b[3;"); ms(100); while (ks.size() < 1 && s.PollOne()) { } }
    CHECK(ks.size() == 1 && ks[0].first == KeyType::ignored);
}''', 'a sequence with a modifier', 'it deletes a character')

seed('c25-cr', 'C25', [('detail/genericasioremotecli.h', '''                if ( c == 0 /* linux */ || c == 10 /* win */ ) Notify(std::make_pair(KeyType::ret,' '));
                else Notify(std::make_pair(KeyType::ignored,' '));

                step = Step::_1;''', '''                if ( c == 0 /* linux */ || c == 10 /* win */ ) Notify(std::make_pair(KeyType::ret,' '));
                else { Notify(std::make_pair(KeyType::ignored,' ')); if ( c == 13 ) break; }

                step = Step::_1;''')], TEL + r'''
int main() {
    asio_::io_context ios; LoopScheduler sc; tcp::socket so(ios);
    auto root = std::make_unique<Menu>("cli"); int n = 0; root->Insert("x", [&](std::ostream&){ ++n; });
    Cli c(std::move(root)); C s(sc, std::move(so), c, nullptr, 10);
    std::string d("\r\r"); s.OnDataReceived(d + "x" + std::string("\r\0", 2));
    while (n < 1) { bool any = true; for (int i = 0; i < 20 && any; ++i) { std::atomic<bool> f{false}; sc.Post([&]{ f = true; }); while (!f) sc.PollOne(); any = false; } break; }
    CHECK(n == 1);
}''', 'two carriage returns in a row', 'the next byte is swallowed')

NET = TEL + r'''
static unsigned short port() { asio_::io_context i; tcp::acceptor a(i, tcp::endpoint(tcp::v4(), 0)); return a.local_endpoint().port(); }
'''
seed('c26-partial', 'C26', [('detail/server.h', 'asiolib::write(socket, asiolib::buffer(msg), ec);', 'socket.write_some(asiolib::buffer(msg), ec);')], NET + r'''
int main() {
    BoostAsioScheduler sc; unsigned short p = port();
    auto root = std::make_unique<Menu>("cli"); const std::size_t N = 20000000;
    root->Insert("big", [&](std::ostream& o){ o << std::string(N, 'z') << std::flush; });
    Cli c(std::move(root)); BoostAsioCliTelnetServer srv(c, sc, p);
    std::thread t([&]{ sc.Run(); });
    asio_::io_context i; tcp::socket s(i); s.connect(tcp::endpoint(asio_::ip::address_v4::loopback(), p));
    asio_::write(s, asio_::buffer(std::string("big\r\0", 5))); ms(300);
    std::atomic<std::size_t> z{0}; 
    std::thread rd([&]{ std::vector<char> b(65536); boost::system::error_code ec; while (!ec) { auto n = s.read_some(asio_::buffer(b), ec); for (size_t k = 0; k < n; ++k) z += b[k] == 'z'; } });
    for (int k = 0; k < 100 && z < N; ++k) ms(100);
    bool ok = z == N;
    sc.Stop(); t.join(); boost::system::error_code ec; s.shutdown(tcp::socket::shutdown_both, ec); s.close(ec); rd.join();
    CHECK(ok);
}''', 'more output than the buffers of the connection hold', 'the rest is lost', flags='-lboost_system')

seed('c26-crlf', 'C26', [('detail/genericasioremotecli.h', '''        for (char c: _data)
        {
            if (c == '\\n') result += '\\r';
            result += c;
        }''', '''        for (char c: _data)
        {
            if (c == '\\n' && (result.empty() || result.back() != '\\r')) result += '\\r';
            if (c != '\\0') result += c;
        }''')], TEL + r'''
struct E : T { using T::T; using T::Encode; };
int main() {
    asio_::io_context ios; tcp::socket so(ios); E t(std::move(so));
    CHECK(t.Encode(std::string("a\0b", 3)) == std::string("a\0b", 3));
}''', 'a zero byte in the output', 'it is dropped')

seed('c28-accept', 'C28', [('detail/server.h', '''                if (!ec) CreateSession(std::move(socket))->Start();
                Accept();''', '''                if (ec) return;
                CreateSession(std::move(socket))->Start();
                Accept();''')], NET + r'''
#include <sys/resource.h>
int main() {
    BoostAsioScheduler sc; unsigned short p = port();
    Cli c(std::make_unique<Menu>("cli")); BoostAsioCliTelnetServer srv(c, sc, p);
    asio_::io_context i; tcp::socket s1(i), s2(i); s1.open(tcp::v4()); s2.open(tcp::v4());
    int fds[2000], n = 0;
    rlimit old; getrlimit(RLIMIT_NOFILE, &old); rlimit l = old; l.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &l);
    for (int k; n < 200 && (k = dup(1)) >= 0; ) fds[n++] = k;
    s1.connect(tcp::endpoint(asio_::ip::address_v4::loopback(), p));
    std::thread t([&]{ sc.Run(); }); ms(300);
    for (int k = 0; k < n; ++k) close(fds[k]);
    setrlimit(RLIMIT_NOFILE, &old); ms(300);
    s2.connect(tcp::endpoint(asio_::ip::address_v4::loopback(), p));
    s2.non_blocking(true); char b[64]; boost::system::error_code ec; std::size_t got = 0;
    for (int k = 0; k < 30 && !got; ++k) { ms(100); got = s2.read_some(asio_::buffer(b), ec); if (ec) got = 0; }
    sc.Stop(); t.join();
    CHECK(got > 0);
}''', 'an accept that fails (no descriptors left)', 'the server accepts no connection any more', flags='-lboost_system')

seed('c28-wouldblock', 'C28', [('detail/server.h', '''              if ( !socket.is_open() || ( ec == asiolib::error::eof ) || ( ec == asiolib::error::connection_reset ) )
                  OnDisconnect();
              else if ( ec )
                  OnError();
              else
              {
                  OnDataReceived( std::string( data, length ));
                  Read();
              }''', '''              if ( !socket.is_open() || ( ec == asiolib::error::eof ) || ( ec == asiolib::error::connection_reset ) )
                  OnDisconnect();
              else if ( ec )
                  OnError();
              else
              {
                  OnDataReceived( std::string( data, length == max_length ? length - 1 : length ));
                  Read();
              }''')], NET + r'''
struct L : detail::Session { using Session::Session; std::string& g; L(tcp::socket s, std::string& x) : Session(std::move(s)), g(x) {}
    void OnConnect() override {} void OnDisconnect() override {} void OnError() override {} void OnDataReceived(const std::string& d) override { g += d; } };
int main() {
    asio_::io_context i; tcp::acceptor a(i, tcp::endpoint(asio_::ip::address_v4::loopback(), 0)); tcp::socket c(i); c.connect(a.local_endpoint());
    std::string g; std::make_shared<L>(a.accept(), g)->Start();
    asio_::write(c, asio_::buffer(std::string(1024, 'q'))); c.close();
    i.run();
    CHECK(g.size() == 1024);
}''', 'a packet that fills the buffer', 'a byte is lost', flags='-lboost_system')

seed('c30-end', 'C30', [('detail/terminal.h', '''                out << beforeInput
                    << std::string(currentLine.begin() + pos, currentLine.end())
                    << afterInput << std::flush;
                position = currentLine.size();''', '''                out << beforeInput
                    << std::string(currentLine.begin() + pos, currentLine.end());
                if (position != currentLine.size()) out << afterInput << std::flush;
                position = currentLine.size();''')], SCR + r'''
int main() {
    SetColor();
    std::ostringstream o; detail::Terminal<detail::TelnetScreen> t(o);
    t.Keypressed({KeyType::end, ' '});
    auto s = o.str();
    CHECK(s.empty() || s.rfind("\033[0m") == s.size() - 4);
}''', 'End with the cursor at the end already', 'the colour of the input stays on')

seed('c31-stop', 'C31', [('detail/genericasioscheduler.h', '''            ASIOLIB::Reset(*work);
        context->stop();''', '''        {
            ASIOLIB::Reset(*work);
            if (context->poll() > 0) return;
        }
        context->stop();''')], B + r'''
int main() {
    BoostAsioScheduler s; int n = 0;
    std::function<void()> f = [&]{ if (++n < 5) s.Post(f); };
    s.Post(f); s.Stop();
    CHECK(s.Stopped()); CHECK(n == 0);
}''', 'stopping with tasks pending', 'the tasks run inside Stop and the context is not stopped', flags='-lboost_system')

seed('c32-guard', 'C32', [('volatilehistorystorage.h', '#ifndef CLI_VOLATILEHISTORYSTORAGE_H_\n#define CLI_VOLATILEHISTORYSTORAGE_H_', '#ifndef CLI_LOOPSCHEDULER_H_\n#define CLI_LOOPSCHEDULER_H_')], r'''
#include <cli/loopscheduler.h>
#include <cli/cli.h>
int main() { cli::LoopScheduler s; cli::Cli c(std::make_unique<cli::Menu>("x")); }''', 'including the scheduler before the session', 'a header hides another one', cmd='timeout 60 ./demo; exit $?  # a program that does not compile is the failure here')

seed('c27-burst', 'C27', [('detail/server.h', '''                  OnDataReceived( std::string( data, length ));
                  Read();''', '''                   OnDataReceived( std::string( data, length ));
                   // give the other connections a chance when this one is flooding
                   if ( length == max_length ) asiolib::post( socket.get_executor(), [ this ](){ Read(); } );
                   else Read();''')], NET + r'''
int main() {
    BoostAsioScheduler sc; unsigned short p = port(); int n = 0;
    auto root = std::make_unique<Menu>("cli"); root->Insert("x", [&](std::ostream&){ ++n; });
    Cli c(std::move(root));
    BoostAsioCliTelnetServer srv(c, sc, p);
    std::thread t([&]{ sc.Run(); });
    asio_::io_context i; tcp::socket s(i); s.connect(tcp::endpoint(asio_::ip::address_v4::loopback(), p)); ms(200);
    asio_::write(s, asio_::buffer(std::string(4096, ' '))); ms(300);
    boost::system::error_code ec; asio_::write(s, asio_::buffer(std::string("x\r\0", 3)), ec); ms(300);
    sc.Stop(); t.join();
    CHECK(n == 1);
}''', 'a packet that fills the buffer', 'the task posted to read again outlives the session', flags='-fsanitize=address -g -lboost_system')
