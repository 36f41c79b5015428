// The directories of an application, with users of the harness's own and an environment of the script's.
// The calls are made as an unprivileged user, each script in a scratch directory.
#include <boost/filesystem/fstream.hpp>
#include <Balau/Util/App.hpp>
#include <Balau/Util/User.hpp>
#include <grp.h>
#include <pwd.h>
#include <sys/stat.h>
#include "seq.hpp"

using namespace seq;
using namespace Balau;

static std::string userName = "nobody", homeName = "/nonexistent";
static bool known = true;
static passwd * fill(passwd * p, char * b) {
	*p = passwd();
	strcpy(b, userName.c_str()); p->pw_name = b; b += userName.size() + 1;
	strcpy(b, homeName.c_str()); p->pw_dir = b; b += homeName.size() + 1;
	*b = 0; p->pw_passwd = p->pw_gecos = p->pw_shell = b;
	p->pw_uid = geteuid(); p->pw_gid = getegid();
	return p;
}
// Stands in for the system's users.
static int lookup(passwd * p, char * b, size_t n, passwd ** r) {
	*r = nullptr;
	if (!known) return 0;
	if (n < userName.size() + homeName.size() + 3) return errno = ERANGE;
	*r = fill(p, b);
	return 0;
}
extern "C" int getpwuid_r(uid_t, passwd * p, char * b, size_t n, passwd ** r) { return lookup(p, b, n, r); }
extern "C" int getpwnam_r(const char *, passwd * p, char * b, size_t n, passwd ** r) { return lookup(p, b, n, r); }
extern "C" passwd * getpwuid(uid_t) { static passwd p; static char b[1 << 16]; return known ? fill(&p, b) : nullptr; }
extern "C" passwd * getpwnam(const char *) { return getpwuid(0); }

static std::string scratch, program;
static std::string text(std::string s) {
	std::string r;
	for (char c : s) if (c == '@') r += scratch; else r += c;
	return r;
}
static std::string unique() { return "vtapp" + std::to_string(getpid()); }

static void run(const Script & script) {
	char dir[] = "/tmp/vtappXXXXXX", link[4096];
	if (!mkdtemp(dir)) return;
	scratch = dir;
	ssize_t k = readlink("/proc/self/exe", link, sizeof link);
	program = std::string(link, k < 0 ? 0 : size_t(k));
	bool root = geteuid() == 0;
	umask(022);
	if (root) { (void) !chown(dir, 65534, 65534); }
	// Everything else happens in a process without privileges.
	pid_t c = fork();
	if (c == 0) {
		bool plain = !root || (setgroups(0, nullptr) == 0 && setgid(65534) == 0 && setuid(65534) == 0);
		for (auto n : { "HOME", "XDG_DATA_HOME", "XDG_CONFIG_HOME", "XDG_RUNTIME_DIR", "TMPDIR" }) unsetenv(n);
		for (auto & op : script.ops) {
			auto at = [&] (size_t i) { return i < op.size() ? op[i] : std::string(); };
			if (op[0] == "env") {
				std::string v = text(at(3));
				if (op[2] == "set") setenv(op[1].c_str(), v.c_str(), 1); else { unsetenv(op[1].c_str()); v = ""; }
				Ev("env").s("name", op[1]).b("set", op[2] == "set").j("v", codes(v)).done();
			} else if (op[0] == "user") {
				known = op[1] != "none";
				userName = unique() + (op[1] == "long" ? std::string(40, 'u') : "");
				size_t n = op.size() > 2 ? std::stoul(op[2]) : 700;
				homeName = op[1] == "long" ? "/h/" + std::string(n, 'x') : "/h/user";
				Ev("user").b("known", known).j("name", codes(userName)).j("home", codes(homeName)).done();
			} else if (op[0] == "make") {
				// make KIND PATH
				std::string p = text(at(2));
				if (op[1] == "locked" && !plain) continue;
				for (size_t i = 1; i <= p.size(); ++i) if ((i == p.size() ? op[1] != "file" : p[i] == '/') && i > scratch.size()) mkdir(p.substr(0, i).c_str(), 0755);
				if (op[1] == "file") std::ofstream(p) << "x";
				if (op[1] == "locked") chmod(p.c_str(), 0500);
				struct stat st {};
				if (stat(p.c_str(), &st) != 0 || S_ISDIR(st.st_mode) != (op[1] != "file")) continue;
				Ev("made").s("kind", op[1]).j("path", codes(p)).done();
			} else if (op[0] == "umask") {
				umask(mode_t(std::stoi(op[1], nullptr, 8)));
			} else if (op[0] == "home" || op[0] == "name") {
				std::string v, is = outcome([&] { v = op[0] == "home" ? Util::User::getHomeDirectory().toRawString() : Util::User::getUserName(); });
				Ev(op[0].c_str()).s("is", is).j("path", codes(v)).done();
			} else if (op[0] == "ask") {
				std::string v, w = op[1], g = at(2), n = at(3);
				std::string is = outcome([&] {
					using Util::App;
					v = (w == "userdata" ? App::getUserApplicationDataDirectory(g, n) : w == "userconfig" ? App::getUserApplicationConfigDirectory(g, n)
						: w == "runtime" ? App::getApplicationRuntimeDataDirectory(g, n) : w == "globaldata" ? App::getGlobalApplicationDataDirectory(g, n)
						: App::getGlobalApplicationConfigDirectory(g, n)).toRawString();
				});
				struct stat st {};
				bool is_dir = is == "ok" && stat(v.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
				Ev("ask").s("which", w).j("g", codes(g)).j("n", codes(n)).s("is", is).j("path", codes(v)).j("program", codes(program))
					.b("dir", is_dir).b("own", is_dir && st.st_uid == geteuid()).n("mode", st.st_mode & 07777).done();
			}
		}
		// What a runtime directory without any variable left behind.
		for (std::string n : { unique(), unique() + std::string(40, 'u') }) { boost::system::error_code e; boost::filesystem::remove_all("/tmp/" + n, e); }
		_exit(0);
	}
	int st = 0;
	while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
	boost::system::error_code e;
	boost::filesystem::remove_all(dir, e);
	// The end of the child is the end of the script.
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); syscall(SYS_kill, getpid(), WTERMSIG(st)); }
	if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
