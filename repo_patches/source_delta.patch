From a403ee0580dcd228fd630c833dc259f5fd4711df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 01/12] fix: decode the hexadecimal digits a-f and A-F in \x
 escapes

---
 src/Configuration.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index da9de39..ea39635 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -28,11 +28,11 @@ static char parseHexValue(char c)
 	if (c >= '0' && c <= '9')
 		return c - '0';
 	else if (c >= 'a' && c <= 'f')
-		return c - 'a';
+		return c - 'a' + 10;
 	else if (!(c >= 'A' && c <= 'F'))
 		LOG_ERROR << "Invalid hex character in configuration: " << c;
 
-	return c - 'A';
+	return c - 'A' + 10;
 }
 
 // Parses a string from the configuration.
-- 
2.43.0


From fd1d42a242b991c824a51ee047b9c8e6dba8bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 02/12] fix: keep the separator after leading '..' components
 when normalizing a relative path

---
 src/Utilities.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cxx b/src/Utilities.cxx
index af67bef..6394991 100644
--- a/src/Utilities.cxx
+++ b/src/Utilities.cxx
@@ -627,7 +627,7 @@ std::string k8psh::Utilities::normalizePath(const std::string &path)
 		{
 			directories.push_back(newPath.length());
 
-			if (directories.size() > 1)
+			if (directories.size() > 1 || (!isAbsolute && !newPath.empty()))
 				newPath += PATH_SEPARATOR;
 
 			newPath += path.substr(start, i - start);
-- 
2.43.0


From 1229a637a99378584c8958b428cb28c0db53b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 03/12] fix: reject the implicit port after port 65535 instead
 of wrapping around to 0

---
 src/Configuration.cxx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index ea39635..10a8657 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -237,7 +237,7 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 
 	// Parse server settings
 	std::shared_ptr<Host> currentHost;
-	unsigned short currentPort = DEFAULT_STARTING_PORT;
+	unsigned long currentPort = DEFAULT_STARTING_PORT;
 	std::vector<std::pair<std::string, std::string> > environmentVariables;
 
 	for (;;)
@@ -267,17 +267,15 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 						LOG_ERROR << "Invalid port number \"" << port << '"';
 				}
 
-				unsigned long portValue = std::stoul(port);
-
-				if (portValue >= 65536)
-					LOG_ERROR << "Port out of range: " << portValue;
-
-				currentPort = static_cast<unsigned short>(portValue);
+				currentPort = std::stoul(port);
 			}
 
+			if (currentPort >= 65536)
+				LOG_ERROR << "Port out of range: " << currentPort;
+
 			// Assign the new host information
 			currentHost->_hostname = host.substr(0, colon);
-			currentHost->_port = currentPort++;
+			currentHost->_port = static_cast<unsigned short>(currentPort++);
 
 			// Parse the options for environment variables
 			environmentVariables.clear();
-- 
2.43.0


From ccd3abf921c0dd1e6568091113e60634db5dc728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:54 +0000
Subject: [PATCH 04/12] fix: do not index one past the receive buffer when a
 header ends exactly at its end

---
 src/Process.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 012137c..1ca89d2 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -167,7 +167,7 @@ public:
 
 		while (_end - _readOffset < length - string.length())
 		{
-			string.append(reinterpret_cast<const char *>(&_data[_readOffset]), _end - _readOffset);
+			string.append(reinterpret_cast<const char *>(_data.data() + _readOffset), _end - _readOffset);
 			_readOffset = 0;
 			_end = _socket.read(_data);
 
@@ -176,7 +176,7 @@ public:
 		}
 
 		std::size_t remaining = length - string.length();
-		string.append(reinterpret_cast<const char *>(&_data[_readOffset]), remaining);
+		string.append(reinterpret_cast<const char *>(_data.data() + _readOffset), remaining);
 		_readOffset += remaining;
 
 		if (_readOffset == _end)
-- 
2.43.0


From b11a7840b24ee06fd3a02bfc5ddd12c77bdcd96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:10 +0000
Subject: [PATCH 05/12] fix: do not overflow the clock when connectTimeoutMs is
 very large

---
 src/Process.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 1ca89d2..674482b 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -274,9 +274,18 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 	Socket socket;
 	BufferedSendSocket sendSocket(socket);
 	BufferedReceiveSocket receiveSocket(socket);
-	auto endTime = configuration.getConnectTimeoutMs() >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(configuration.getConnectTimeoutMs()) : std::chrono::steady_clock::time_point::max();
+	auto endTime = std::chrono::steady_clock::time_point::max();
 	std::chrono::milliseconds backoff = std::chrono::milliseconds(16);
 
+	// A timeout that goes beyond the range of the clock is the same as no timeout
+	if (configuration.getConnectTimeoutMs() >= 0)
+	{
+		auto now = std::chrono::steady_clock::now();
+
+		if (configuration.getConnectTimeoutMs() < std::chrono::duration_cast<std::chrono::milliseconds>(endTime - now).count())
+			endTime = now + std::chrono::milliseconds(configuration.getConnectTimeoutMs());
+	}
+
 	// Connect to the server
 	while (!(socket = Socket::connect(command.getHost().getPort(), false)).isValid())
 	{
-- 
2.43.0


From 46e157bd016371f0db1cfc3db233dd2331223742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 06/12] fix: consume standard input that arrives after the
 command closed its standard input

---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 674482b..1fc9bf4 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -914,7 +914,10 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 							LOG_DEBUG << "Received stdin data (" << payloadValue << " bytes) from client";
 
 							if (stdInPipe.getInput() == Pipe::INVALID_HANDLE)
+							{
 								LOG_DEBUG << "Ignoring " << payloadValue << " received bytes due to closed stdin"; // Ignore data on stdin after close
+								(void)receiveSocket.readString(payloadValue);
+							}
 							else if (!payloadValue)
 								closeStdIn = true;
 							else
-- 
2.43.0


From 7c9e3facf5647b1abec95c6476fb2bb6d7b10895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 07/12] fix: do not remove the files of the server when a
 connection process fails

---
 src/Main.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 4ea51b0..0a6c16c 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -652,7 +652,10 @@ static void mainServer(int argc, const char *argv[])
 					{
 						(void)close(listener.abandon());
 						signal(SIGCHLD, SIG_DFL);
-						k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client));
+
+						try { k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client)); }
+						catch (...) { std::abort(); } // The files to clean up belong to the server
+
 						std::exit(0);
 					}
 
-- 
2.43.0


From c77b65f87eb1fa1f58fddfa6f769d65a00fbb471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 08/12] fix: truncate an existing file when installing a copy
 of the program over it

---
 src/Main.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 0a6c16c..0c6f7d3 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -156,7 +156,7 @@ static void mainClient(int argc, const char *argv[])
 					if (source < 0)
 						LOG_ERROR << "Failed to open " << clientCommand << ": " << errno;
 
-					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT, 0755);
+					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755);
 
 					if (dest < 0)
 						LOG_ERROR << "Failed to open " << installFilename << ": " << errno;
-- 
2.43.0


From 6714860a9a85c3b06b96d4551262ec93594f059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 09/12] fix: do not keep the exit request pipe open in
 connection processes

---
 src/Main.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 0c6f7d3..5dc0597 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -651,6 +651,8 @@ static void mainServer(int argc, const char *argv[])
 					if (child == 0)
 					{
 						(void)close(listener.abandon());
+						exitRequested.closeInput(); // Otherwise the server is not told to exit while this process is running
+						exitRequested.closeOutput();
 						signal(SIGCHLD, SIG_DFL);
 
 						try { k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client)); }
-- 
2.43.0


From 1f09929c4c44b01887756a68d0d1c8f29b345313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 10/12] fix: do not overflow the clock when the server timeout
 is very large

---
 src/Main.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 5dc0597..a592460 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -505,7 +505,16 @@ static void mainServer(int argc, const char *argv[])
 			try { timeoutMs = std::stoll(timeout); }
 			catch (const std::exception &e) { LOG_ERROR << "Failed to parse timeout (" << timeout << "): " << e.what(); }
 
-			auto endTime = timeoutMs >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(timeoutMs) : std::chrono::steady_clock::time_point::max();
+			auto endTime = std::chrono::steady_clock::time_point::max();
+
+			// A timeout that goes beyond the range of the clock is the same as no timeout
+			if (timeoutMs >= 0)
+			{
+				auto now = std::chrono::steady_clock::now();
+
+				if (timeoutMs < std::chrono::duration_cast<std::chrono::milliseconds>(endTime - now).count())
+					endTime = now + std::chrono::milliseconds(timeoutMs);
+			}
 
 			// Daemonize, if desired
 			if (daemonize)
-- 
2.43.0


From dbefb2a0450691fe026cd27ea284c234917a7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 11/12] fix: use absolute paths for the files of a background
 server, since it changes its working directory

---
 src/Main.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index a592460..def1efe 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -423,6 +423,18 @@ static void mainServer(int argc, const char *argv[])
 			deferredArgc = deferredArgs.size();
 	}
 
+	// The daemon changes its working directory, so make all paths absolute
+	if (daemonize)
+	{
+		const std::string workingDirectory = k8psh::Utilities::getWorkingDirectory() + k8psh::Utilities::getPathSeparator();
+
+		if (!k8psh::Utilities::isAbsolutePath(directory))
+			directory = workingDirectory + directory;
+
+		if (!pidFilename.empty() && !k8psh::Utilities::isAbsolutePath(pidFilename))
+			pidFilename = workingDirectory + pidFilename;
+	}
+
 	// Generate the appropriate client symlinks / executables
 	std::string clientCommand = k8psh::Utilities::getExecutablePath();
 	const auto commands = configuration.getCommands();
-- 
2.43.0


From cf2397e81da5f9866baebc4e92ebe890c1b1a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 12/12] fix: let the client receive everything before a
 connection with unread input is closed

---
 src/Process.cxx | 10 ++++++++++
 src/Socket.cxx  | 10 ++++++++++
 src/Socket.hxx  |  3 +++
 3 files changed, 23 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 1fc9bf4..5ca803e 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -1003,6 +1003,16 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			LOG_DEBUG << "Sending exit code (" << exitCode << ") to client";
 			socket.write({ std::uint8_t(EXIT_CODE), std::uint8_t(exitCode), std::uint8_t(exitCode >> 8), std::uint8_t(exitCode >> 16), std::uint8_t(exitCode >> 24) });
 		}
+
+		// Discard any input still being sent until the client closes the connection (closing it with unread input would reset it, and the client could lose what was sent)
+		{
+			std::vector<std::uint8_t> discardedData(INITIAL_MTU_SIZE);
+
+			socket.shutdownWrite();
+
+			while (socket.read(discardedData))
+				;
+		}
 #endif
 
 terminateServer:
diff --git a/src/Socket.cxx b/src/Socket.cxx
index 7ebf00a..d097258 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -337,6 +337,16 @@ std::size_t k8psh::Socket::read(std::vector<std::uint8_t> &data, std::size_t off
 	return socketRead(_handle, &data[offset], data.size() - offset, waitAll);
 }
 
+// Ends sending data on the socket. Data can still be read.
+void k8psh::Socket::shutdownWrite()
+{
+#ifdef _WIN32
+	(void)shutdown(_handle, SD_SEND);
+#else
+	(void)shutdown(_handle, SHUT_WR);
+#endif
+}
+
 /** Writes data to the socket, up to the ending index.
  *
  * @param data a vector of data to write to the socket
diff --git a/src/Socket.hxx b/src/Socket.hxx
index a49f7bb..887d620 100644
--- a/src/Socket.hxx
+++ b/src/Socket.hxx
@@ -108,6 +108,9 @@ public:
 	 */
 	std::size_t read(std::vector<std::uint8_t> &data, std::size_t offset = 0, bool waitAll = false);
 
+	// Ends sending data on the socket. Data can still be read.
+	void shutdownWrite();
+
 	/** Writes data to the socket from the specified offset.
 	 *
 	 * @param data a vector of data to write to the socket
-- 
2.43.0

