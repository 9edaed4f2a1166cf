From 8c3e928dc98046d3a584859adb43a133557b4fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 01/25] fix: a std::bad_cast thrown by a command handler is
 reported as an exception, not as a wrong command

---
 include/cli/cli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 437e838..9f9e7a1 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -781,13 +781,15 @@ namespace cli
             if (cmdLine.size() != paramSize+1) return false;
             if (Name() == cmdLine[0])
             {
+                bool converted = false; // true when all the parameters have been converted
                 try
                 {
-                    auto g = [&](auto ... pars){ func( session.OutStream(), pars... ); };
+                    auto g = [&](auto ... pars){ converted = true; func( session.OutStream(), pars... ); };
                     Select<Args...>::Exec(g, std::next(cmdLine.begin()), cmdLine.end());
                 }
                 catch (std::bad_cast&)
                 {
+                    if (converted) throw; // thrown by the handler, not by the conversion of the parameters
                     return false;
                 }
                 return true;
-- 
2.43.0


From e804c977a6666e204d29d3d15dd6fc28bab02742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 02/25] fix: a disabled menu no longer offers the completions
 of its content

---
 include/cli/cli.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 9f9e7a1..59b40ab 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -543,6 +543,7 @@ namespace cli
         // - the recursive completions of parent menu
         std::vector<std::string> GetCompletions(const std::string& currentLine) const
         {
+            if (!IsEnabled()) return {};
             auto result = cli::GetCompletions(cmds, currentLine);
             if (parent != nullptr)
             {
@@ -569,6 +570,7 @@ namespace cli
          */
         std::vector<std::string> GetCompletionRecursive(const std::string& line) const override
         {
+            if (!IsEnabled()) return {};
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
@@ -593,6 +595,7 @@ namespace cli
          */
         std::vector<std::string> GetCompletionWithParent(const std::string& line) const
         {
+            if (!IsEnabled()) return {};
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
-- 
2.43.0


From 6720ae9f378e4fbcdc15f784724085b14b8c06a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 03/25] fix: a command can remove itself (or the menu
 containing it) while it is running

---
 include/cli/cli.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 59b40ab..de09afb 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -510,7 +510,8 @@ namespace cli
         {
             if (!IsEnabled())
                 return false;
-            for (auto& cmd: *cmds)
+            // copies the shared_ptr, because the command could remove itself from the menu
+            for (auto cmd: *cmds)
                 if (cmd->Exec(cmdLine, session))
                     return true;
             assert(!cmdLine.empty());
@@ -672,7 +673,8 @@ namespace cli
                 {
                     // check also for subcommands
                     std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());
-                    for (auto& cmd: *cmds)
+                    // copies the shared_ptr, because the command could remove itself from the menu
+                    for (auto cmd: *cmds)
                         if (cmd->Exec( subCmdLine, session )) return true;
                     return (parent && parent->ExecParent(subCmdLine, session));
                 }
-- 
2.43.0


From 0eaedad3facc9c8f9072071f97d7c64660dc2338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 04/25] fix: a session whose current menu is removed goes back
 to the root menu

---
 include/cli/cli.h | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index de09afb..2f19aaf 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -321,7 +321,7 @@ namespace cli
 
         void Prompt();
 
-        void Current(Menu* menu) { current = menu; }
+        void Current(Menu* menu);
 
         std::ostream& OutStream() { return out; }
 
@@ -379,9 +379,13 @@ namespace cli
 
     private:
 
+        // the menu the session is in (the root menu, if the former has been removed in the meantime)
+        Menu* CurrentMenu() const { return currentAlive.expired() ? cli.RootMenu() : current; }
+
         Cli& cli;
         std::shared_ptr<cli::OutStream> coutPtr;
         Menu* current;
+        std::weak_ptr<const void> currentAlive; // expires when the current menu is destroyed
         std::unique_ptr<Menu> globalScopeMenu;
         std::ostream& out;
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
@@ -696,6 +700,10 @@ namespace cli
         template <typename F, typename R>
         CmdHandler Insert(const std::string& name, const std::string& help, const std::vector<std::string>& parDesc, F& f, R (F::*)(std::ostream& out, std::vector<std::string>) const);
 
+        friend class CliSession;
+        // a pointer that expires when this menu is destroyed
+        std::weak_ptr<const void> Alive() const { return cmds; }
+
         Menu* parent{ nullptr };
         const std::string description;
         const std::string prompt;
@@ -891,6 +899,8 @@ namespace cli
             out(_out),
             history(historySize)
         {
+            Current(cli.RootMenu());
+
             history.LoadCommands(cli.GetCommands());
 
             coutPtr->Register(out);
@@ -916,6 +926,15 @@ namespace cli
             );
         }
 
+    inline void CliSession::Current(Menu* menu)
+    {
+        current = menu;
+        if (menu != nullptr)
+            currentAlive = menu->Alive();
+        else
+            currentAlive.reset();
+    }
+
     inline void CliSession::Feed(const std::string& cmd)
     {
         std::vector<std::string> strs;
@@ -930,7 +949,7 @@ namespace cli
             bool found = globalScopeMenu->ScanCmds(strs, *this);
 
             // root menu recursive cmds check
-            if (!found) found = current->ScanCmds(strs, *this);
+            if (!found) found = CurrentMenu()->ScanCmds(strs, *this);
 
             if (!found) // wrong command handler if not found
                 cli.WrongCommandHandler(out, cmd);
@@ -951,7 +970,7 @@ namespace cli
     {
         if (exit) return;
         out << beforePrompt
-            << current->Prompt()
+            << CurrentMenu()->Prompt()
             << afterPrompt
             << "> "
             << std::flush;
@@ -961,7 +980,7 @@ namespace cli
     {
         out << "Commands available:\n";
         globalScopeMenu->MainHelp(out);
-        current -> MainHelp( out );
+        CurrentMenu() -> MainHelp( out );
     }
 
     inline std::vector<std::string> CliSession::GetCompletions(std::string currentLine) const
@@ -969,7 +988,7 @@ namespace cli
         // trim_left(currentLine);
         currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));
         auto v1 = globalScopeMenu->GetCompletions(currentLine);
-        auto v3 = current->GetCompletions(currentLine);
+        auto v3 = CurrentMenu()->GetCompletions(currentLine);
         v1.insert(v1.end(), std::make_move_iterator(v3.begin()), std::make_move_iterator(v3.end()));
 
         // removes duplicates (std::unique requires a sorted container)
-- 
2.43.0


From b2042859ac3ead76eab915301a23d8110ec4f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 05/25] fix: recalling an entry of an empty history is an error
 instead of an out of bounds access

---
 include/cli/detail/history.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index e8eb401..4f80b0e 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -165,14 +165,14 @@ private:
     // newest has index = 0      and id = idOfOldest + size-1 
     std::size_t IndexToId(std::size_t index) const
     {
-        if (index > idOfOldest+buffer.size()-1)
+        if (index >= buffer.size())
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - index;
     }
 
     std::size_t IdToIndex(std::size_t id) const
     {
-        if (id < idOfOldest || id > idOfOldest+buffer.size()-1)
+        if (id < idOfOldest || id - idOfOldest >= buffer.size())
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - id;
     }
-- 
2.43.0


From f55d41fa93387a6b764e33a6613160c29eb07200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 06/25] fix: a history with size zero can be browsed and
 recalled safely

---
 include/cli/detail/history.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 4f80b0e..74ebfba 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -79,6 +79,8 @@ public:
     // Otherwise, the line overwrites the current item.
     std::string Previous(const std::string& line)
     {
+        if (maxSize == 0)
+            return line; // nothing to browse
         if (mode == Mode::inserting)
         {
             Insert(line);
@@ -155,8 +157,8 @@ public:
 
     void ForgetLatest()
     {
-        assert(!buffer.empty());
-        buffer.pop_front();
+        if (!buffer.empty())
+            buffer.pop_front();
     }
 
 private:
-- 
2.43.0


From a25ecaad68e123919753e203fa332d064ce7284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 07/25] fix: the commands loaded from the history storage are
 not stored again at exit

---
 include/cli/detail/history.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 74ebfba..cd89cf7 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -54,7 +54,6 @@ public:
     // Otherwise, the item is added to the front of the container
     void NewCommand(const std::string& item)
     {
-        ++commands;
         current = 0;
         if (mode == Mode::browsing)
         {
@@ -62,12 +61,18 @@ public:
             if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
                 buffer.pop_front();
             else // the item was not identical
+            {
                 buffer[current] = item;
+                ++commands;
+            }
         }
         else // Mode::inserting
         {
             if (buffer.empty() || buffer[0] != item) // insert an element not equal to last one
+            {
                 Insert(item);
+                ++commands;
+            }
         }
         mode = Mode::inserting;
     }
@@ -159,6 +164,8 @@ public:
     {
         if (!buffer.empty())
             buffer.pop_front();
+        if (commands > 0)
+            --commands;
     }
 
 private:
@@ -192,7 +199,7 @@ private:
     const std::size_t maxSize;
     std::deque<std::string> buffer; // buffer[0] is the newest element
     std::size_t current = 0;
-    std::size_t commands = 0; // number of commands issued
+    std::size_t commands = 0; // number of commands issued and inserted in the buffer
     enum class Mode { inserting, browsing };
     Mode mode = Mode::inserting;
     std::size_t idOfOldest = 0; // the id of the oldest element kept in the history
-- 
2.43.0


From 80d6c0990c5b257cfc565cb6104a648a368532ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 08/25] fix: signed overflow parsing the minimum value of an
 integer parameter

---
 include/cli/detail/fromstring.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/fromstring.h b/include/cli/detail/fromstring.h
index 606b3e2..3490557 100644
--- a/include/cli/detail/fromstring.h
+++ b/include/cli/detail/fromstring.h
@@ -131,10 +131,13 @@ inline T signed_from_string(std::string s)
     {
         s = s.substr(1);
         const U val = unsigned_digits_from_string<U>(s);
-        auto min = std::numeric_limits<T>::min(); // this to avoid overflow warnings. Please NOTE: const auto produces warning!
-        if ( val > static_cast<U>( - min ) )
+        // NOTE: neither the minimum value nor its magnitude can be negated in T
+        const U minMagnitude = static_cast<U>( static_cast<U>( std::numeric_limits<T>::max() ) + 1u );
+        if ( val > minMagnitude )
             throw bad_conversion();
-        return (- static_cast<T>(val));
+        if ( val == minMagnitude )
+            return std::numeric_limits<T>::min();
+        return static_cast<T>( - static_cast<T>(val) );
     }
     else if (s[0] == '+')
     {
-- 
2.43.0


From 41f29cadab803a6275dfd82b99e1310b76cf5d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 09/25] fix: undefined behaviour classifying non-ASCII
 characters

---
 include/cli/cli.h                         | 4 ++--
 include/cli/detail/fromstring.h           | 8 ++++----
 include/cli/detail/genericasioremotecli.h | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 2f19aaf..c739bff 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -619,7 +619,7 @@ namespace cli
             auto rest = line;
             rest.erase(0, prefix.size());
             // trim_left(rest);
-            rest.erase(rest.begin(), std::find_if(rest.begin(), rest.end(), [](int ch) { return !std::isspace(ch); }));
+            rest.erase(rest.begin(), std::find_if(rest.begin(), rest.end(), [](unsigned char ch) { return !std::isspace(ch); }));
             std::vector<std::string> result;
             for (const auto& cmd: *cmds)
             {
@@ -986,7 +986,7 @@ namespace cli
     inline std::vector<std::string> CliSession::GetCompletions(std::string currentLine) const
     {
         // trim_left(currentLine);
-        currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));
+        currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](unsigned char ch) { return !std::isspace(ch); }));
         auto v1 = globalScopeMenu->GetCompletions(currentLine);
         auto v3 = CurrentMenu()->GetCompletions(currentLine);
         v1.insert(v1.end(), std::make_move_iterator(v3.begin()), std::make_move_iterator(v3.end()));
diff --git a/include/cli/detail/fromstring.h b/include/cli/detail/fromstring.h
index 3490557..d2287fb 100644
--- a/include/cli/detail/fromstring.h
+++ b/include/cli/detail/fromstring.h
@@ -98,7 +98,7 @@ inline T unsigned_digits_from_string(const std::string& s)
     T result = 0;
     for (char c: s)
     {
-        if (!std::isdigit(c))
+        if (!std::isdigit(static_cast<unsigned char>(c)))
             throw bad_conversion();
         const T digit = static_cast<T>( c - '0' );
         const T tmp = (result * 10) + digit;
@@ -212,7 +212,7 @@ inline char from_string(const std::string& s)
 template <>
 inline float from_string(const std::string& s)
 {
-    if ( std::any_of(s.begin(), s.end(), [](char c){return std::isspace(c);} ) )
+    if ( std::any_of(s.begin(), s.end(), [](unsigned char c){return std::isspace(c);} ) )
         throw bad_conversion();
     std::string::size_type sz;
     float result = {};
@@ -229,7 +229,7 @@ inline float from_string(const std::string& s)
 template <>
 inline double from_string(const std::string& s)
 {
-    if ( std::any_of(s.begin(), s.end(), [](char c){return std::isspace(c);} ) )
+    if ( std::any_of(s.begin(), s.end(), [](unsigned char c){return std::isspace(c);} ) )
         throw bad_conversion();
     std::string::size_type sz;
     double result = {};
@@ -246,7 +246,7 @@ inline double from_string(const std::string& s)
 template <>
 inline long double from_string(const std::string& s)
 {
-    if ( std::any_of(s.begin(), s.end(), [](char c){return std::isspace(c);} ) )
+    if ( std::any_of(s.begin(), s.end(), [](unsigned char c){return std::isspace(c);} ) )
         throw bad_conversion();
     std::string::size_type sz;
     long double result = {};
diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index f8f7760..3c47fe8 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -426,7 +426,7 @@ private:
 private:
     void Feed(char c)
     {
-        if (std::isprint(c)) std::cout << c << std::endl;
+        if (std::isprint(static_cast<unsigned char>(c))) std::cout << c << std::endl;
         else std::cout << "0x" << std::hex << static_cast<int>(c) << std::dec << std::endl;
     }
     std::string buffer;
-- 
2.43.0


From 331d1270c7b80bee2d3f14139bb95f72e3c3212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 10/25] fix: a file session whose input is exhausted by a
 command exits once

---
 include/cli/clifilesession.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cli/clifilesession.h b/include/cli/clifilesession.h
index 68177e5..981ca90 100644
--- a/include/cli/clifilesession.h
+++ b/include/cli/clifilesession.h
@@ -65,7 +65,10 @@ public:
             Prompt();
             std::string line;
             if (!in.good())
+            {
                 Exit();
+                break;
+            }
             std::getline(in, line);
             if (in.eof())
                 Exit();
-- 
2.43.0


From 2f1a8543326acc7874e6a3928f7f95186e47bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 11/25] fix: the exit actions run only once per session and can
 be empty

---
 include/cli/cli.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index c739bff..1be73bd 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -337,7 +337,10 @@ namespace cli
 
         void Exit()
         {
-            exitAction(out);
+            if (exit) return; // already exited
+
+            if (exitAction)
+                exitAction(out);
             cli.ExitAction(out);
 
             auto cmds = history.GetCommands();
-- 
2.43.0


From ce4ebc5ed19b1a85a1d74e63a29e1847f5c44ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 12/25] fix: a telnet session without server exit action can be
 closed

---
 include/cli/detail/genericasioremotecli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 3c47fe8..9c27410 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,7 +457,7 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out){ _exitAction(_out), Disconnect(); } );
+        ExitAction([this, _exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); Disconnect(); } );
     }
 protected:
 
-- 
2.43.0


From 8efbf0452c4d6f6a0d67d02485fe83570bca5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 13/25] fix: closing a telnet session already closed by the
 peer does not throw

---
 include/cli/detail/server.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 8013057..b136e64 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -54,8 +54,10 @@ protected:
 
     virtual void Disconnect()
     {
-        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both);
-        socket.close();
+        // the peer could have already closed the connection: ignore the errors
+        asiolibec::error_code ec;
+        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both, ec);
+        socket.close(ec);
     }
 
     virtual void Read()
-- 
2.43.0


From 54124159ffbe0a28368e902aadf1dc0d4d0a9570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 14/25] fix: the enter action of the telnet server is called

---
 include/cli/detail/genericasioremotecli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 9c27410..4c643ee 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -575,7 +575,9 @@ public:
     }
     std::shared_ptr<Session> CreateSession(asiolib::ip::tcp::socket _socket) override
     {
-        return std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        auto session = std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        session->EnterAction(enterAction);
+        return session;
     }
 private:
     Scheduler& scheduler;
-- 
2.43.0


From d8ab6d403b5652d5eec4d5585b4cb12b2e4bddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 15/25] fix: a file session having a custom exit action
 terminates

---
 include/cli/cli.h            |  8 ++++++--
 include/cli/clifilesession.h | 10 +---------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 1be73bd..3c89b47 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -338,6 +338,7 @@ namespace cli
         void Exit()
         {
             if (exit) return; // already exited
+            exit = true; // prevent the prompt to be shown
 
             if (exitAction)
                 exitAction(out);
@@ -345,8 +346,6 @@ namespace cli
 
             auto cmds = history.GetCommands();
             cli.StoreCommands(cmds);
-
-            exit = true; // prevent the prompt to be shown
         }
 
         void EnterAction(const std::function<void(std::ostream&)>& action)
@@ -380,6 +379,11 @@ namespace cli
 
         std::vector<std::string> GetCompletions(std::string currentLine) const;
 
+    protected:
+
+        // true when the session got the exit command (or the end of the input)
+        bool Exited() const { return exit; }
+
     private:
 
         // the menu the session is in (the root menu, if the former has been removed in the meantime)
diff --git a/include/cli/clifilesession.h b/include/cli/clifilesession.h
index 981ca90..571fb28 100644
--- a/include/cli/clifilesession.h
+++ b/include/cli/clifilesession.h
@@ -44,23 +44,16 @@ public:
     /// @throw std::invalid_argument if @c _in or @c out are invalid streams
     explicit CliFileSession(Cli& _cli, std::istream& _in=std::cin, std::ostream& _out=std::cout) :
         CliSession(_cli, _out, 1),
-        exit(false),
         in(_in)
     {
         if (!_in.good()) throw std::invalid_argument("istream invalid");
         if (!_out.good()) throw std::invalid_argument("ostream invalid");
-        ExitAction(
-            [this](std::ostream&) noexcept
-            {
-                exit = true;
-            }
-        );
     }
     void Start()
     {
         Enter();
 
-        while(!exit)
+        while(!Exited())
         {
             Prompt();
             std::string line;
@@ -78,7 +71,6 @@ public:
     }
 
 private:
-    bool exit;
     std::istream& in;
 };
 
-- 
2.43.0


From 02ffe20f99c2ac932a5275aec6639ee235a21cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 16/25] fix: a session sharing its stream with a closed session
 still receives the global output

---
 include/cli/cli.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 3c89b47..819e16c 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -100,7 +100,10 @@ namespace cli
         }
         void UnRegister(std::ostream& o)
         {
-            ostreams.erase(std::remove(ostreams.begin(), ostreams.end(), &o), ostreams.end());
+            // more than one session can use the same stream: removes only one of them
+            const auto i = std::find(ostreams.begin(), ostreams.end(), &o);
+            if (i != ostreams.end())
+                ostreams.erase(i);
         }
 
     private:
-- 
2.43.0


From 96edadc420f80bc6d811c6ffc0c7187f7b5ede72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 17/25] fix: a key notified before the destruction of the
 session is discarded

---
 include/cli/detail/inputdevice.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/inputdevice.h b/include/cli/detail/inputdevice.h
index 62a369f..5aac82d 100644
--- a/include/cli/detail/inputdevice.h
+++ b/include/cli/detail/inputdevice.h
@@ -31,6 +31,7 @@
 #define CLI_DETAIL_INPUTDEVICE_H_
 
 #include <functional>
+#include <memory>
 #include <string>
 #include "../scheduler.h"
 
@@ -58,13 +59,16 @@ protected:
 
     void Notify(std::pair<KeyType,char> k)
     {
-        scheduler.Post([this,k](){ if (handler) handler(k); });
+        // the device could be destroyed before the scheduler runs the task
+        std::weak_ptr<const bool> token{ alive };
+        scheduler.Post([this,k,token](){ if (!token.expired() && handler) handler(k); });
     }
 
 private:
 
     Scheduler& scheduler;
     Handler handler;
+    const std::shared_ptr<const bool> alive = std::make_shared<bool>(true); // expires with this object
 };
 
 } // namespace detail
-- 
2.43.0


From 2d4dd4adb37efd60986bf2f2a5be55d0de0faddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 18/25] fix: the accept handler does not access a destroyed
 server

---
 include/cli/detail/server.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index b136e64..15e97d0 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -142,13 +142,17 @@ public:
 private:
     void Accept()
     {
-        acceptor.async_accept([this](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
+        // the server could be destroyed before the execution of the handler
+        std::weak_ptr<const bool> token{ alive };
+        acceptor.async_accept([this, token](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
             {
+                if (token.expired()) return;
                 if (!ec) CreateSession(std::move(socket))->Start();
                 Accept();
             });
     }
     asiolib::ip::tcp::acceptor acceptor;
+    const std::shared_ptr<const bool> alive = std::make_shared<bool>(true); // expires with this object
 };
 
 
-- 
2.43.0


From 9a604276830326e8a309683da2dfba4a56337010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 19/25] fix: the read handler does not access a destroyed async
 session

---
 include/cli/detail/genericcliasyncsession.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 2712276..15f970a 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -30,6 +30,7 @@
 #ifndef CLI_DETAIL_GENERICCLIASYNCSESSION_H_
 #define CLI_DETAIL_GENERICCLIASYNCSESSION_H_
 
+#include <memory>
 #include <string>
 #include "../cli.h" // CliSession
 #include "genericasioscheduler.h"
@@ -59,14 +60,17 @@ private:
     void Read()
     {
         Prompt();
+        // the session could be destroyed before the execution of the handler
+        std::weak_ptr<const bool> token{ alive };
         // Read a line of input entered by the user.
         asiolib::async_read_until(
             input,
             inputBuffer,
             '\n',
-            std::bind( &GenericCliAsyncSession::NewLine, this,
-                       std::placeholders::_1,
-                       std::placeholders::_2 )
+            [this, token](const asiolibec::error_code& error, std::size_t length)
+            {
+                if (!token.expired()) NewLine(error, length);
+            }
         );
     }
 
@@ -89,6 +93,7 @@ private:
         }
     }
 
+    const std::shared_ptr<const bool> alive = std::make_shared<bool>(true); // expires with this object
     asiolib::streambuf inputBuffer;
     asiolib::posix::stream_descriptor input;
 };
-- 
2.43.0


From 72772eb4dd1504c6bc9891642389dacc241b6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 20/25] fix: a signal does not stop the keyboard input

---
 include/cli/detail/linuxkeyboard.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 17b40e1..a1a71c2 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -34,6 +34,7 @@
 #include <memory>
 #include <stdexcept>
 
+#include <cerrno>
 #include <cstdio>
 #include <termios.h>
 #include <unistd.h>
@@ -65,11 +66,19 @@ public:
     void WaitKbHit()
     {
         fd_set rfds;
-        FD_ZERO(&rfds);
-        FD_SET(STDIN_FILENO, &rfds);
-        FD_SET(readPipe, &rfds);
+        int ready = 0;
+        do
+        {
+            // the sets are undefined after an error: they must be prepared again
+            FD_ZERO(&rfds);
+            FD_SET(STDIN_FILENO, &rfds);
+            FD_SET(readPipe, &rfds);
+            ready = select(readPipe + 1, &rfds, nullptr, nullptr, nullptr);
+        }
+        while (ready == 0 || (ready == -1 && errno == EINTR)); // a signal is not an input
 
-        while (select(readPipe + 1, &rfds, nullptr, nullptr, nullptr) == 0);
+        if (ready == -1)
+            throw std::runtime_error("InputSource error");
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
-- 
2.43.0


From a13dd70190edbbf8c35f51fbd730a59b2702b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 21/25] fix: the end of the standard input is notified once
 instead of generating endless NUL keys

---
 include/cli/detail/linuxkeyboard.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index a1a71c2..80dcdd5 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -171,8 +171,17 @@ public:
     char GetChar()
     {
         char buffer = 0;
-        auto unused = read(0, &buffer, 1);
-        static_cast<void>(unused); // silence unused warn
+        ssize_t len = 0;
+        do
+        {
+            len = read(STDIN_FILENO, &buffer, 1);
+        }
+        while (len == -1 && errno == EINTR);
+        if (len != 1) // end of file or error: no more input can come
+        {
+            Notify(std::make_pair(KeyType::eof,' '));
+            throw std::runtime_error("InputSource end of file");
+        }
         return buffer;
     }
 
-- 
2.43.0


From 725b0617828cbc5af7366f2c0d40395e0c18e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 22/25] fix: the destruction of a keyboard with the input
 deactivated does not block

---
 include/cli/detail/linuxkeyboard.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 80dcdd5..90a1ee4 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -124,6 +124,12 @@ public:
     {
         ToStandardMode();
         is.Stop();
+        {
+            // the servant could be waiting for the input to be activated
+            std::lock_guard<std::mutex> lock(mtx);
+            enabled = true;
+            cv.notify_one();
+        }
         servant.join();
     }
     void ActivateInput() override
-- 
2.43.0


From 84f905ecc5104f7c954d57955a587cdfdf06830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 23/25] fix: in telnet sessions only the canc key deletes a
 character (not page up, ins, etc.)

---
 include/cli/detail/genericasioremotecli.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 4c643ee..c1c6ef1 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -517,7 +517,8 @@ protected:
                     case 67: step = Step::_1; Notify(std::make_pair(KeyType::right,' ')); break;
                     case 70: step = Step::_1; Notify(std::make_pair(KeyType::end,' ')); break;
                     case 72: step = Step::_1; Notify(std::make_pair(KeyType::home,' ')); break;
-                    default: step = Step::_4; break;  // not arrow keys
+                    case 51: step = Step::_4; break;  // canc key, if followed by 126
+                    default: step = Step::_5; break;  // not arrow keys
                 }
                 break;
 
@@ -529,6 +530,11 @@ protected:
 
                 break;
 
+            case Step::_5: // the end of a sequence not supported
+                step = Step::_1;
+                Notify(std::make_pair(KeyType::ignored,' '));
+                break;
+
             case Step::wait_0:
                 if ( c == 0 /* linux */ || c == 10 /* win */ ) Notify(std::make_pair(KeyType::ret,' '));
                 else Notify(std::make_pair(KeyType::ignored,' '));
@@ -542,7 +548,7 @@ protected:
 
 private:
 
-    enum class Step { _1, _2, _3, _4, wait_0 };
+    enum class Step { _1, _2, _3, _4, _5, wait_0 };
     Step step = Step::_1;
     CommandProcessor<TelnetScreen> poll;
 };
-- 
2.43.0


From 0e8bcdefc4c6a56c363a6045d13bb1ab0a994739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 24/25] fix: the async session headers can be included alone

---
 include/cli/boostasiocliasyncsession.h      | 2 +-
 include/cli/standaloneasiocliasyncsession.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/boostasiocliasyncsession.h b/include/cli/boostasiocliasyncsession.h
index e2dc607..3772e93 100644
--- a/include/cli/boostasiocliasyncsession.h
+++ b/include/cli/boostasiocliasyncsession.h
@@ -30,8 +30,8 @@
 #ifndef CLI_BOOSTASIOCLIASYNCSESSION_H_
 #define CLI_BOOSTASIOCLIASYNCSESSION_H_
 
-#include "detail/genericcliasyncsession.h"
 #include "detail/boostasiolib.h"
+#include "detail/genericcliasyncsession.h"
 
 
 namespace cli { using BoostAsioCliAsyncSession = detail::GenericCliAsyncSession<detail::BoostAsioLib>; }
diff --git a/include/cli/standaloneasiocliasyncsession.h b/include/cli/standaloneasiocliasyncsession.h
index c5eb680..81d8340 100644
--- a/include/cli/standaloneasiocliasyncsession.h
+++ b/include/cli/standaloneasiocliasyncsession.h
@@ -30,8 +30,8 @@
 #ifndef CLI_STANDALONEASIOCLIASYNCSESSION_H_
 #define CLI_STANDALONEASIOCLIASYNCSESSION_H_
 
-#include "detail/genericcliasyncsession.h"
 #include "detail/standaloneasiolib.h"
+#include "detail/genericcliasyncsession.h"
 
 
 namespace cli { using StandaloneAsioCliAsyncSession = detail::GenericCliAsyncSession<detail::StandaloneAsioLib>; }
-- 
2.43.0


From 42680b17b862d9c3b7f01145690e178722b68eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 25/25] fix: the keyboard thread could not be stopped in the
 middle of a key sequence

---
 include/cli/detail/linuxkeyboard.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 90a1ee4..e3734e2 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -180,6 +180,7 @@ public:
         ssize_t len = 0;
         do
         {
+            is.WaitKbHit(); // even in the middle of a key sequence: Stop() must be able to wake us up
             len = read(STDIN_FILENO, &buffer, 1);
         }
         while (len == -1 && errno == EINTR);
@@ -193,8 +194,6 @@ public:
 
     std::pair<KeyType,char> Get()
     {
-        is.WaitKbHit();
-
         auto ch = GetChar();
         switch(ch)
         {
-- 
2.43.0

