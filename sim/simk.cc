// The simulator kernel: simulated file system, process table, pipes, locks,
// clock, scheduler and fault injector.  Every actor of the system under test is
// parked on its channel; this program picks the one that makes the next step.
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "simproto.h"
using std::string; using std::vector; using std::map; using std::shared_ptr;
typedef uint64_t u64; typedef int64_t i64;

static const char *opname[] = {
#define X(n) #n,
SIM_OPS(X)
#undef X
};
static const map<string,int> errnames = {
	{"EIO",EIO},{"ENOSPC",ENOSPC},{"EMFILE",EMFILE},{"ENFILE",ENFILE},{"ENOMEM",ENOMEM},{"EACCES",EACCES},{"EINTR",EINTR},
	{"EAGAIN",EAGAIN},{"EROFS",EROFS},{"EDQUOT",EDQUOT},{"ENOLCK",ENOLCK},{"EPERM",EPERM},{"EXDEV",EXDEV},{"ENOENT",ENOENT},{"ELOOP",ELOOP},{"EFBIG",EFBIG} };

struct Rng { u64 s; void seed(u64 x){ s=x*0x9E3779B97F4A7C15ULL+0x1234567; if(!s)s=1; for(int i=0;i<4;i++)next(); }
	u64 next(){ s^=s>>12; s^=s<<25; s^=s>>27; return s*2685821657736338717ULL; }
	u64 below(u64 n){ return n? (next()>>11)%n : 0; } };

// ------------------------------------------------------------------ world fs
struct Inode { u64 ino=0; unsigned type=S_IFREG, mode=0644; string data; map<string,Inode*> ch; string target; unsigned nlink=1;
	bool host=false, loaded=false; string hostpath; i64 mtime=0; Inode*parent=nullptr; unsigned dev=0; i64 opens=0;
	vector<std::pair<int,int>> locks; // (proc idx or -ofile id, type)
};
static std::unordered_map<string,Inode*> hostcache;
static vector<Inode*> winodes; static u64 inoctr; static Inode *root;
static u64 fnv(const void*p,size_t n,u64 h=1469598103934665603ULL){ const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;i++){h^=c[i];h*=1099511628211ULL;} return h; }

struct Pipe { string buf; int readers=0, writers=0; vector<std::pair<i64,string>> feed; size_t fi=0; i64 due=0; };
struct Sink { string data; bool tty=false; };
struct OFile { int id=0; Inode*ino=nullptr; shared_ptr<Pipe> pipe; int pend=0; shared_ptr<Sink> sink; i64 pos=0; int flags=0; string path;
	~OFile(){ if(pipe){ if(pend==0)pipe->readers--; else pipe->writers--; } if(ino) ino->opens--; } };
typedef shared_ptr<OFile> OF;
struct Chan;
static u64 wseed; static u64 rndctr;
struct Proc { int idx=0,pid=0,par=-1,opar=-1; pid_t real=0; bool alive=true,reaped=false,stopped=false; int evstop=0; bool evcont=false; int status=0;
	map<int,OF> fds; string cwd; unsigned umask_=022; vector<Chan*> chans; u64 ops=0; map<i64,i64> sems; map<i64,int> mutex; u64 exitstep=0, startstep=0;
	i64 hb=-1,hbytes=0,hallocs=0,steps=0,peak=0; vector<string> notes; shared_ptr<Sink> out,err; int threads=0; std::set<int> deadthr; int launch=0; bool everstopped=false; };
struct Fault { string kind; i64 arg=0; };
struct Chan { int id=0,fd=-1; Proc*p=nullptr; int tid=0; int st=0; /*0 running 1 parked 2 dead*/ sim_req q; string pay; bool hasf=false; Fault f; i64 deadline=-1; u64 opno=0; bool keep=false; };
struct Rule { string op; string eff; u64 ppm; i64 max; int proc; string prefix; i64 arg; };
struct FiredF { int proc; u64 op; string kind; i64 arg; string what; };
struct Event { u64 step; int proc; int what; };

static Rng rng; static vector<Proc*> procs; static vector<Chan*> chans; static vector<Rule> rules; static map<std::pair<int,u64>,Fault> planned;
static map<u64,int> schedplan; static bool schedreplay; static u64 preppm; static vector<std::pair<u64,int>> schedrec; static vector<FiredF> fired;
static vector<Event> events; static u64 step_; static i64 simtime; static i64 quota=-1; static u64 loghash; static bool logon; static string logtext;
static int pidctr, ofctr; static bool dtunknown; static u64 dirseed; static int lastchan; static map<string,u64> opcounts; static u64 decisions; static i64 launchctr;
static i64 optime=7; static bool coredumps=false; static vector<shared_ptr<Pipe>> feeds; static bool noent_host=false;

static u64 det(u64 salt,u64 n){ u64 v[3]={wseed,step_,salt}; return n?(fnv(v,sizeof v)>>16)%n:0; }
static void logf(const char*f,...){ char b[4096]; va_list a; va_start(a,f); int n=vsnprintf(b,sizeof b,f,a); va_end(a); if(n>(int)sizeof b-1)n=sizeof b-1; loghash=fnv(b,n,loghash); if(logon){logtext.append(b,n);logtext+='\n';} }

static Inode* newino(unsigned type,unsigned mode){ Inode*i=new Inode; i->ino=++inoctr; i->type=type; i->mode=mode; i->mtime=simtime; winodes.push_back(i); return i; }
static Inode* hostnode(const string&hp){
	auto it=hostcache.find(hp); if(it!=hostcache.end())return it->second;
	struct stat st; Inode*n=nullptr;
	if(lstat(hp.c_str(),&st)==0 && (S_ISREG(st.st_mode)||S_ISDIR(st.st_mode)||S_ISLNK(st.st_mode))){
		n=new Inode; n->host=true; n->hostpath=hp; n->ino=(fnv(hp.data(),hp.size())>>20)|(1ULL<<44); n->type=st.st_mode&S_IFMT; n->mode=st.st_mode&0777; n->mtime=1700000000;
		if(S_ISLNK(st.st_mode)){ char b[4096]; ssize_t k=readlink(hp.c_str(),b,sizeof b); n->target.assign(b,k>0?k:0); }
	}
	hostcache[hp]=n; return n;
}
static void hostload(Inode*n){ if(n->loaded)return; n->loaded=true; FILE*f=fopen(n->hostpath.c_str(),"rb"); if(!f)return; char b[65536]; size_t k; while((k=fread(b,1,sizeof b,f))>0)n->data.append(b,k); fclose(f); }
static size_t isize(Inode*n){ if(n->type==S_IFREG&&n->host)hostload(n); return n->type==S_IFLNK?n->target.size():n->data.size(); }
static Inode* lookup1(Inode*d,const string&nm){
	if(d->host) { Inode*c=hostnode(d->hostpath+"/"+nm); if(c) c->parent=d; return c; }
	auto it=d->ch.find(nm); if(it!=d->ch.end())return it->second;
	if(d==root && !noent_host){ Inode*c=hostnode("/"+nm); if(c){ c->parent=d; return c; } }
	return nullptr;
}
struct Res { Inode*par=nullptr,*ino=nullptr; string name; int err=0; string full; };
static Res resolve(const string&cwd,const string&path,bool follow,int depth=0){
	Res r; if(path.empty()){r.err=ENOENT;return r;} if(path.size()>4095){r.err=ENAMETOOLONG;return r;}
	if(depth>20){r.err=ELOOP;return r;}
	string full=path[0]=='/'?path:cwd+"/"+path; vector<string> st; // canonical component stack
	Inode*cur=root; vector<Inode*> istk; size_t i=0; string rest=full;
	vector<string> comps; { string c; for(char ch:rest){ if(ch=='/'){ if(!c.empty())comps.push_back(c); c.clear(); } else c+=ch; } bool tr=rest.back()=='/'; if(!c.empty())comps.push_back(c); if(tr)comps.push_back("."); }
	istk.push_back(root); r.ino=root; r.par=root; r.name=".";
	int links=0;
	for(i=0;i<comps.size();i++){
		string c=comps[i]; bool last=i+1==comps.size(); cur=istk.back();
		if(cur->type!=S_IFDIR){r.err=ENOTDIR;r.ino=nullptr;return r;}
		if(!(cur->mode&0111)){r.err=EACCES;r.ino=nullptr;return r;}
		if(c==".") { if(last){r.ino=cur;r.par=istk.size()>1?istk[istk.size()-2]:root; } continue; }
		if(c==".."){ if(istk.size()>1){istk.pop_back();st.pop_back();} if(last){r.ino=istk.back();r.par=istk.size()>1?istk[istk.size()-2]:root;r.name=".."; } continue; }
		if(c.size()>255){r.err=ENAMETOOLONG;r.ino=nullptr;return r;}
		Inode*n=lookup1(cur,c);
		if(n&&n->type==S_IFLNK&&(!last||follow)){
			if(++links>40){r.err=ELOOP;r.ino=nullptr;return r;}
			string t=n->target; vector<string> tc; { string x; for(char ch:t){ if(ch=='/'){ if(!x.empty())tc.push_back(x); x.clear(); } else x+=ch; } if(!x.empty())tc.push_back(x); }
			if(t.empty()){r.err=ENOENT;r.ino=nullptr;return r;}
			if(t[0]=='/'){ istk.clear(); istk.push_back(root); st.clear(); }
			comps.erase(comps.begin(),comps.begin()+i+1); comps.insert(comps.begin(),tc.begin(),tc.end()); i=(size_t)-1; r.ino=istk.back(); r.par=r.ino; if(comps.empty()){ } continue; }
		if(last){ r.par=cur; r.name=c; r.ino=n; r.err=n?0:ENOENT; st.push_back(c); string f; for(auto&x:st)f+="/"+x; r.full=f; return r; }
		if(!n){r.err=ENOENT;r.ino=nullptr;r.par=nullptr;return r;}
		istk.push_back(n); st.push_back(c);
	}
	string f; for(auto&x:st)f+="/"+x; r.full=f.empty()?"/":f; return r;
}
static Inode* mkpath(const string&dir){ // world builder: mkdir -p
	Inode*cur=root; string c; string p=dir+"/";
	for(char ch:p){ if(ch!='/'){c+=ch;continue;} if(c.empty())continue; auto it=cur->ch.find(c); if(it==cur->ch.end()){ Inode*n=newino(S_IFDIR,0755); n->parent=cur; cur->ch[c]=n; cur=n; } else cur=it->second; c.clear(); }
	return cur;
}
// ------------------------------------------------------------------- zygotes
struct Zyg { string path; pid_t pid; int ctl; };
static map<string,Zyg> zygs; static int covfd=-1; static unsigned char*cov;
static void closeonexec(int fd){ fcntl(fd,F_SETFD,FD_CLOEXEC); }
static bool sendfd(int s,const void*b,size_t n,int fd){ struct iovec io={(void*)b,n}; char cb[CMSG_SPACE(sizeof(int))]; memset(cb,0,sizeof cb); struct msghdr m; memset(&m,0,sizeof m); m.msg_iov=&io;m.msg_iovlen=1;m.msg_control=cb;m.msg_controllen=sizeof cb; struct cmsghdr*c=CMSG_FIRSTHDR(&m); c->cmsg_level=SOL_SOCKET;c->cmsg_type=SCM_RIGHTS;c->cmsg_len=CMSG_LEN(sizeof(int)); memcpy(CMSG_DATA(c),&fd,sizeof(int)); return sendmsg(s,&m,MSG_NOSIGNAL)==(ssize_t)n; }
static bool sendall(int s,const void*b,size_t n){ const char*p=(const char*)b; while(n){ ssize_t k=send(s,p,n,MSG_NOSIGNAL); if(k<0){ if(errno==EINTR)continue; return false;} p+=k;n-=k;} return true; }
// 1 ok, 0 eof, -1 timeout
static int recvall(int s,void*b,size_t n){ char*p=(char*)b; while(n){ ssize_t k=recv(s,p,n,0); if(k<0){ if(errno==EINTR)continue; if(errno==EAGAIN||errno==EWOULDBLOCK)return -1; return 0;} if(k==0)return 0; p+=k;n-=k;} return 1; }
static Zyg& zyg(const string&path){
	auto it=zygs.find(path); if(it!=zygs.end())return it->second;
	int sv[2]; socketpair(AF_UNIX,SOCK_STREAM,0,sv);
	pid_t p=fork();
	if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); for(int sg=1;sg<32;sg++)signal(sg,SIG_DFL); sigset_t em; sigemptyset(&em); sigprocmask(SIG_SETMASK,&em,nullptr); dup2(sv[1],3); int c2=-1; if(covfd>=0){ c2=dup2(covfd,4);} for(int i=5;i<64;i++)close(i); int dn=open("/dev/null",O_RDWR); dup2(dn,0);dup2(dn,1); 
		const char*av[]={"actor","3",c2>=0?"4":"-1",nullptr}; const char*ev[]={"LC_ALL=C","TZ=UTC",nullptr}; execve(path.c_str(),(char*const*)av,(char*const*)ev); _exit(90); }
	close(sv[1]); closeonexec(sv[0]); zygs[path]={path,p,sv[0]}; return zygs[path];
}
// ------------------------------------------------------------------ processes
static u64 recvTimeoutS=60;
static Chan* newchan(Proc*p,int&childfd){ int sv[2]; socketpair(AF_UNIX,SOCK_STREAM,0,sv); struct timeval tv={(time_t)recvTimeoutS,0}; setsockopt(sv[0],SOL_SOCKET,SO_RCVTIMEO,&tv,sizeof tv); int bs=1<<20; setsockopt(sv[0],SOL_SOCKET,SO_SNDBUF,&bs,sizeof bs); setsockopt(sv[1],SOL_SOCKET,SO_SNDBUF,&bs,sizeof bs); closeonexec(sv[0]); closeonexec(sv[1]); Chan*c=new Chan; c->id=chans.size(); c->fd=sv[0]; c->p=p; chans.push_back(c); p->chans.push_back(c); childfd=sv[1]; return c; }
static void dropLocks(Inode*n,int who){ auto&l=n->locks; l.erase(std::remove_if(l.begin(),l.end(),[&](auto&x){return x.first==who;}),l.end()); }
static void addEvent(u64 s,int p,int w){ events.push_back({s,p,w}); }
static void procDied(Proc*p){
	if(!p->alive)return; int st=0; pid_t r=waitpid(p->real,&st,0); if(r<0){ st=127<<8; }
	if(coredumps&&WIFSIGNALED(st)&&strchr("\3\4\5\6\7\10\13\30\31\37",WTERMSIG(st)))st|=0x80;
	p->alive=false; p->status=st; p->exitstep=step_; p->stopped=false;
	for(auto&kv:p->fds) if(kv.second->ino) dropLocks(kv.second->ino,p->idx);
	p->fds.clear();
	for(Chan*c:p->chans){ if(c->fd>=0)close(c->fd); c->fd=-1; c->st=2; }
	for(Proc*q:procs) if(q->par==p->idx) q->par=-1;
	logf("%" PRIu64 " p%d died status %x",step_,p->idx,st);
}
static void killProc(Proc*p,int sig){ if(!p->alive)return; kill(p->real,sig); procDied(p); }
static bool timedout;
static void decideFault(Chan*c);
static void park(Chan*c){ // blocking receive of the next request
	int k=recvall(c->fd,&c->q,sizeof c->q);
	if(k==-1){ timedout=true; logf("timeout p%d",c->p->idx); c->p->notes.push_back("timeout"); killProc(c->p,SIGKILL); return; }
	if(k==0){ procDied(c->p); return; }
	c->pay.resize(c->q.len); if(c->q.len){ k=recvall(c->fd,&c->pay[0],c->q.len); if(k!=1){ procDied(c->p); return; } }
	c->keep=c->q.op&SIM_KEEPTURN; c->q.op&=~SIM_KEEPTURN;
	if(c->q.op>=OP__N){ killProc(c->p,SIGKILL); return; }
	c->st=1; c->deadline=-1; c->hasf=false; c->opno=++c->p->ops; 
	if(c->q.op==OP_HELLO){ if(c->q.a[1]!=2) c->p->real=(pid_t)c->q.a[0]; }
	else if(c->q.op!=OP_EXITNOTE&&c->q.op!=OP_NOTE&&c->q.op!=OP_HEAPBAD&&c->q.op!=OP_STEPLIMIT&&c->q.op!=OP_ALLOCFAIL&&c->q.op!=OP_FORKED&&c->q.op!=OP_FDCOUNT) decideFault(c);
}
static void reply(Chan*c,i64 ret,int err=0,const void*d=nullptr,size_t n=0,int passfd=-1){
	sim_rep r; r.ret=ret; r.err=err; r.len=n; c->st=0;
	bool ok; if(passfd>=0) ok=sendfd(c->fd,&r,sizeof r,passfd); else { if(n&&n<60000){ string b((char*)&r,sizeof r); b.append((const char*)d,n); sendall(c->fd,b.data(),b.size()); return; } ok=sendall(c->fd,&r,sizeof r); }
	if(ok&&n) sendall(c->fd,d,n);
}
static OF getfd(Proc*p,int fd){ auto it=p->fds.find(fd); return it==p->fds.end()?nullptr:it->second; }
static int allocfd(Proc*p,OF f,int from=0){ int k=from; while(p->fds.count(k))k++; if(k>=1024)return -1; p->fds[k]=f; return k; }
static string P(Chan*c){ string s(c->pay.c_str()); int o=c->q.op; if(o==OP_MKDIR||o==OP_RMDIR||o==OP_RENAME||o==OP_SYMLINK) while(s.size()>1&&s.back()=='/')s.pop_back(); return s; }
static string opath(Chan*c){ // path an operation refers to, for fault filters and logs
	switch(c->q.op){ case OP_READ: case OP_WRITE: case OP_PREAD: case OP_PWRITE: case OP_LSEEK: case OP_CLOSE: case OP_FSTAT: case OP_FTRUNCATE: case OP_FSYNC: case OP_LOCK: { OF f=getfd(c->p,(int)c->q.a[0]); return f?f->path:""; }
	case OP_OPEN: case OP_STAT: case OP_LSTAT: case OP_ACCESS: case OP_MKDIR: case OP_RMDIR: case OP_RENAME: case OP_LINK: case OP_SYMLINK: case OP_READLINK: case OP_UNLINK: case OP_TRUNCATE: case OP_READDIR: case OP_REALPATH: case OP_DLOPEN: { string s=P(c); if(s.empty()||s[0]=='/')return s; return c->p->cwd+"/"+s; } }
	return "";
}
static bool opmatch(const string&cls,Chan*c){
	int op=c->q.op;
	if(cls=="any")return true;
	if(cls=="open")return op==OP_OPEN; if(cls=="creat")return op==OP_OPEN&&(c->q.a[0]&O_CREAT);
	if(cls=="openr")return op==OP_OPEN&&!(c->q.a[0]&O_ACCMODE);
	if(cls=="read")return op==OP_READ||op==OP_PREAD; if(cls=="write")return op==OP_WRITE||op==OP_PWRITE; if(cls=="close")return op==OP_CLOSE;
	if(cls=="mkdir")return op==OP_MKDIR; if(cls=="rename")return op==OP_RENAME; if(cls=="unlink")return op==OP_UNLINK||op==OP_RMDIR; if(cls=="stat")return op==OP_STAT||op==OP_LSTAT||op==OP_ACCESS; if(cls=="fstat")return op==OP_FSTAT;
	if(cls=="readlink")return op==OP_READLINK; if(cls=="readdir")return op==OP_READDIR; if(cls=="fork")return op==OP_FORK; if(cls=="wait")return op==OP_WAITPID; if(cls=="mprotect")return op==OP_MPROTECT; if(cls=="mmap")return op==OP_MMAP; if(cls=="dlopen")return op==OP_DLOPEN;
	if(cls=="lseek")return op==OP_LSEEK; if(cls=="trunc")return op==OP_FTRUNCATE||op==OP_TRUNCATE; if(cls=="lock")return op==OP_LOCK; if(cls=="sem")return op==OP_SEMWAIT; if(cls=="chmod")return op==OP_CHMOD; if(cls=="getcwd")return op==OP_GETCWD; if(cls=="fsync")return op==OP_FSYNC; if(cls=="disk")return op==OP_OPEN||op==OP_READ||op==OP_WRITE||op==OP_CLOSE||op==OP_MKDIR||op==OP_RENAME||op==OP_UNLINK||op==OP_LSEEK||op==OP_RMDIR||op==OP_CHMOD||op==OP_FTRUNCATE;
	return false;
}
static bool applicable(const string&eff,Chan*c){ // can this effect change anything here?
	if(eff=="short"){ if(c->q.op!=OP_READ&&c->q.op!=OP_WRITE&&c->q.op!=OP_PREAD&&c->q.op!=OP_PWRITE)return false; return c->q.a[1]>1; }
	if(errnames.count(eff)) switch(c->q.op){ // calls the environment can refuse at all
	case OP_OPEN: case OP_READ: case OP_WRITE: case OP_PREAD: case OP_PWRITE: case OP_LSEEK: case OP_CLOSE: case OP_FSTAT: case OP_STAT: case OP_LSTAT: case OP_ACCESS: case OP_MKDIR: case OP_RMDIR: case OP_RENAME: case OP_LINK:
	case OP_SYMLINK: case OP_READLINK: case OP_UNLINK: case OP_CHMOD: case OP_FTRUNCATE: case OP_TRUNCATE: case OP_FSYNC: case OP_READDIR: case OP_GETCWD: case OP_CHDIR: case OP_PIPE: case OP_LOCK: case OP_FORK: case OP_WAITPID: case OP_MPROTECT: case OP_MMAP:
	case OP_DLOPEN: case OP_THREAD: case OP_REALPATH: return true;
	case OP_DUP: case OP_DUP2: return eff=="EMFILE";
	case OP_SEMWAIT: case OP_SLEEP: case OP_POLL: return eff=="EINTR";
	default: return false; }
	return true;
}
static void decideFault(Chan*c){
	auto it=planned.find({c->p->idx,c->opno}); if(it!=planned.end()){ if(applicable(it->second.kind.substr(it->second.kind.find(':')+1),c)){ c->hasf=true; c->f=it->second; } return; }
	string path; bool have=false;
	for(auto&r:rules){
		if(r.max==0||(r.proc>=0&&r.proc!=c->p->idx)||!opmatch(r.op,c))continue;
		if(r.prefix!="*"){ if(!have){path=opath(c);have=true;} bool neg=r.prefix[0]=='!'; string pf=neg?r.prefix.substr(1):r.prefix; bool m=path.compare(0,pf.size(),pf)==0; if(m==neg)continue; }
		if(!applicable(r.eff,c))continue;
		decisions++;
		if(rng.below(1000000)<r.ppm){ c->hasf=true; c->f.kind=r.op+":"+r.eff; c->f.arg=r.arg; if(r.eff=="short"){ i64 n=c->q.a[1]; i64 lim=n; if(c->q.op==OP_READ){ OF f=getfd(c->p,(int)c->q.a[0]); if(f&&f->ino){ i64 av=(i64)isize(f->ino)-f->pos; if(av<lim)lim=av; } } if(lim>1){ c->f.arg=rng.below(4)==0?1:1+(i64)rng.below(lim-1); if(r.arg>0&&c->f.arg>r.arg)c->f.arg=r.arg; } else { c->hasf=false; continue; } } else if(r.eff=="stop"||r.eff=="tstp") c->f.arg=1+rng.below(r.arg>0?r.arg:40); if(r.max>0)r.max--; return; }
	}
}
// the far end of a standard input that arrives in pieces
static void feedPipes(){ for(auto&pp:feeds) while(pp->fi<pp->feed.size()&&simtime>=pp->due){ pp->buf+=pp->feed[pp->fi++].second; logf("%" PRIu64 " FEED %zu",step_,pp->buf.size()); if(pp->fi==pp->feed.size())pp->writers--; else pp->due=simtime+pp->feed[pp->fi].first; } }
static int pollFd(Proc*p,int fd,int ev){ if(fd<0)return 0; OF f=getfd(p,fd); if(!f)return POLLNVAL; if(!f->pipe)return ev&(POLLIN|POLLOUT|POLLRDNORM|POLLWRNORM); int r=0;
	if(f->pend==0){ if(!f->pipe->buf.empty())r|=POLLIN|POLLRDNORM; r&=ev; if(f->pipe->writers==0)r|=POLLHUP; } else { if(f->pipe->buf.size()<65536)r|=POLLOUT|POLLWRNORM; r&=ev; if(f->pipe->readers==0)r|=POLLERR; } return r; }
static bool canRun(Chan*c){
	Proc*p=c->p; if(c->st!=1||!p->alive||p->stopped)return false; if(c->hasf&&(c->f.kind.size()<6||c->f.kind.compare(c->f.kind.size()-6,6,":short")))return true;
	switch(c->q.op){
	case OP_WAITPID:{ int want=(int)c->q.a[0],opt=(int)c->q.a[1]; bool any=false; for(Proc*q:procs){ if(q->par!=p->idx||q->reaped)continue; if(want>0&&q->pid!=want)continue; any=true; if(!q->alive)return true; if((opt&WUNTRACED)&&q->evstop)return true; if((opt&WCONTINUED)&&q->evcont)return true; } return !any||(opt&WNOHANG); }
	case OP_READ:{ OF f=getfd(p,(int)c->q.a[0]); if(f&&f->pipe&&f->pend==0&&!(f->flags&O_NONBLOCK)) return !f->pipe->buf.empty()||f->pipe->writers==0; return true; }
	case OP_POLL:{ if(c->deadline<0)c->deadline=c->q.a[1]<0?INT64_MAX:simtime+c->q.a[1]; if(simtime>=c->deadline)return true; auto*v=(struct pollfd*)&c->pay[0]; for(i64 i=0;i<c->q.a[0];i++) if(pollFd(p,v[i].fd,v[i].events))return true; return false; }
	case OP_WRITE:{ OF f=getfd(p,(int)c->q.a[0]); if(f&&f->pipe&&f->pend==1) return f->pipe->buf.size()<65536||f->pipe->readers==0; return true; }
	case OP_SEMWAIT: return p->sems[c->q.a[0]]>0;
	case OP_MUTEXLOCK: return !c->q.a[1]||p->mutex[c->q.a[0]]==0;
	case OP_LOCK:{ if(!c->q.a[2])return true; OF f=getfd(p,(int)c->q.a[0]); if(!f||!f->ino)return true; int t=(int)c->q.a[1]; if(t==F_UNLCK)return true; for(auto&l:f->ino->locks) if(l.first!=p->idx&&(t==F_WRLCK||l.second==F_WRLCK))return false; return true; }
	case OP_SLEEP: if(c->deadline<0)c->deadline=simtime+c->q.a[0]; return simtime>=c->deadline;
	case OP_THREADJOIN: return p->deadthr.count((int)c->q.a[0])>0;
	}
	return true;
}
static bool chargeGrow(i64 n){ if(quota<0)return true; if(quota<n)return false; quota-=n; return true; }
static i64 doWrite(OF f,const char*d,i64 n,i64 pos,int&err){ // file write; partial when the disk fills up
	Inode*i=f->ino; i64 end=pos+n; i64 grow=end-(i64)i->data.size(); if(grow<0)grow=0;
	if(grow>0&&quota>=0&&quota<grow){ i64 can=n-(grow-quota); if(can<=0){err=ENOSPC;return -1;} n=can; end=pos+n; grow=end-(i64)i->data.size(); if(grow<0)grow=0; }
	if(grow>0)chargeGrow(grow);
	if((i64)i->data.size()<end)i->data.resize(end); memcpy(&i->data[pos],d,n); i->mtime=simtime; return n;
}
static void freeIno(Inode*i){ if(quota>=0&&i->type==S_IFREG&&i->nlink==0) quota+=i->data.size(); }
static void recFault(Chan*c){ fired.push_back({c->p->idx,c->opno,c->f.kind,c->f.arg,string(opname[c->q.op])+" "+opath(c)}); logf("%" PRIu64 " FAULT p%d op%" PRIu64 " %s %" PRId64,step_,c->p->idx,c->opno,c->f.kind.c_str(),c->f.arg); }
static void stopProc(Proc*p,int sig){ if(p->alive&&!p->stopped){ p->stopped=true; p->everstopped=true; p->evstop=sig; p->evcont=false; logf("%" PRIu64 " p%d stopped",step_,p->idx); } }
static void contProc(Proc*p){ if(p->alive&&p->stopped){ p->stopped=false; p->evcont=true; p->evstop=0; logf("%" PRIu64 " p%d continued",step_,p->idx); } }
static string P2(Chan*c){ size_t k=strlen(c->pay.c_str())+1; return k<c->pay.size()?string(c->pay.c_str()+k):""; }

static void execOp(Chan*c){
	Proc*p=c->p; sim_req&q=c->q; int op=q.op; opcounts[opname[op]]++; simtime+=optime; string eff; bool after_kill=false; string path=opath(c);
	if(c->hasf){ recFault(c); eff=c->f.kind.substr(c->f.kind.find(':')+1);
		if(eff=="kill"){ killProc(p,SIGKILL); return; }
		if(eff=="term"){ killProc(p,(int)(c->f.arg?c->f.arg:SIGTERM)); return; }
		if(eff=="intr"){ for(size_t i=0;i<procs.size();i++){ if(procs[i]->alive&&procs[i]->launch==p->launch&&procs[i]->real) killProc(procs[i],SIGINT);} return; }
		if(eff=="stop"||eff=="tstp"){ c->hasf=false; u64 when=step_+c->f.arg; if(eff=="stop"){ stopProc(p,SIGSTOP); addEvent(when,p->idx,1);} else { for(Proc*o:procs) if(o->alive&&o->launch==p->launch&&o->real){ stopProc(o,SIGTSTP); addEvent(when+det(o->idx,3),o->idx,1);} } c->st=1; return; }
		if(eff=="killafter") after_kill=true;
	}
	i64 ret=0; int err=0; string out; bool isout=false;
	auto fail=[&](int e){ ret=-1; err=e; };
	auto en=errnames.find(eff);
	if(en!=errnames.end()){ // refused by the environment
		if(op==OP_CLOSE){ OF f=getfd(p,(int)q.a[0]); if(f&&f->ino)dropLocks(f->ino,p->idx); p->fds.erase((int)q.a[0]); }
		fail(en->second); goto done;
	}
	switch(op){
	case OP_HELLO: break;
	case OP_YIELD: break;
	case OP_EXITNOTE: p->hb=q.a[0];p->hbytes=q.a[1];p->hallocs=q.a[2];p->steps=q.a[3];p->peak=q.a[4]; break;
	case OP_STEPLIMIT: p->notes.push_back("steplimit"); break;
	case OP_HEAPBAD: p->notes.push_back("heap: "+P(c)); break;
	case OP_NOTE: p->notes.push_back(P(c)); break;
	case OP_ALLOCFAIL: fired.push_back({p->idx,c->opno,"alloc:ENOMEM",q.a[0],"malloc "+std::to_string(q.a[1])}); break;
	case OP_OPEN:{
		int fl=(int)q.a[0]; Res r=resolve(p->cwd,P(c),!(fl&O_NOFOLLOW)&&!((fl&O_CREAT)&&(fl&O_EXCL)));
		if(r.err&&!(r.err==ENOENT&&r.par&&(fl&O_CREAT))){fail(r.err);break;}
		bool wr=(fl&O_ACCMODE)!=O_RDONLY; Inode*i=r.ino;
		if(i){ if((fl&O_CREAT)&&(fl&O_EXCL)){fail(EEXIST);break;} if(i->type==S_IFLNK){fail(ELOOP);break;} if(i->type==S_IFDIR&&(wr||(fl&O_CREAT))){fail(EISDIR);break;} if((fl&O_DIRECTORY)&&i->type!=S_IFDIR){fail(ENOTDIR);break;}
			if(i->host&&wr){fail(EROFS);break;} if(!i->host&&((wr&&!(i->mode&0200))||((fl&O_ACCMODE)!=O_WRONLY&&!(i->mode&0400)))){fail(EACCES);break;} if(i->host&&!(i->mode&0444)){fail(EACCES);break;} }
		else { if(r.par->host){fail(EROFS);break;} if(!(r.par->mode&0200)){fail(EACCES);break;} if(quota==0){fail(ENOSPC);break;} i=newino(S_IFREG,(unsigned)q.a[1]&0777&~p->umask_); i->parent=r.par; r.par->ch[r.name]=i; r.par->mtime=simtime; }
		OF f=std::make_shared<OFile>(); f->id=++ofctr; f->flags=fl; f->path=r.full; f->ino=i; i->opens++;
		if(i->type==S_IFCHR&&i->dev==10){ // /dev/stdin, /dev/stdout, /dev/stderr
			OF g=getfd(p,i->mode&7); if(!g){fail(ENXIO);break;} f=g; }
		int fd=allocfd(p,f); if(fd<0){fail(EMFILE);break;}
		if((fl&O_TRUNC)&&wr&&i->type==S_IFREG){ if(quota>=0)quota+=i->data.size(); i->data.clear(); i->mtime=simtime; }
		ret=fd; break; }
	case OP_READ: case OP_PREAD:{
		OF f=getfd(p,(int)q.a[0]); if(!f||(f->flags&O_ACCMODE)==O_WRONLY){fail(EBADF);break;} i64 n=q.a[1]; if(eff=="short"&&c->f.arg<n)n=c->f.arg;
		if(f->pipe){ if(f->pend==1){fail(EBADF);break;} if(f->pipe->buf.empty()&&f->pipe->writers>0&&n>0){fail(EAGAIN);break;} if((i64)f->pipe->buf.size()<n)n=f->pipe->buf.size(); out=f->pipe->buf.substr(0,n); f->pipe->buf.erase(0,n); ret=n; isout=true; break; }
		if(f->sink){fail(EBADF);break;}
		if(f->ino->type==S_IFCHR){ret=0;break;} if(f->ino->type==S_IFDIR){fail(EISDIR);break;}
		size_t sz=isize(f->ino); i64 pos=op==OP_PREAD?q.a[2]:f->pos; if(pos>(i64)sz)n=0; else if(pos+n>(i64)sz)n=sz-pos;
		if(n>0)out.assign(f->ino->data,pos,n); if(op==OP_READ)f->pos+=n; ret=n; isout=true; break; }
	case OP_WRITE: case OP_PWRITE:{
		OF f=getfd(p,(int)q.a[0]); if(!f||(f->flags&O_ACCMODE)==O_RDONLY){fail(EBADF);break;} i64 n=q.a[1]; if(eff=="short"&&c->f.arg<n)n=c->f.arg;
		if(f->pipe){ if(f->pend==0){fail(EBADF);break;} if(f->pipe->readers==0){ logf("SIGPIPE p%d",p->idx); killProc(p,SIGPIPE); return; } i64 room=65536-(i64)f->pipe->buf.size(); if(n>room)n=room; f->pipe->buf.append(c->pay,0,n); ret=n; break; }
		if(f->sink){ f->sink->data.append(c->pay,0,n); ret=n; break; }
		if(f->ino->type==S_IFCHR){ if(f->ino->dev==28){fail(ENOSPC);break;} ret=n; break; } if(f->ino->type!=S_IFREG){fail(EBADF);break;}
		i64 pos=op==OP_PWRITE?q.a[2]:(f->flags&O_APPEND)?(i64)f->ino->data.size():f->pos;
		ret=doWrite(f,c->pay.data(),n,pos,err); if(ret>0&&op==OP_WRITE)f->pos=pos+ret; break; }
	case OP_LSEEK:{ OF f=getfd(p,(int)q.a[0]); if(!f){fail(EBADF);break;} if(f->pipe||f->sink){fail(ESPIPE);break;} i64 b=q.a[2]==SEEK_SET?0:q.a[2]==SEEK_CUR?f->pos:(i64)isize(f->ino); if(b+q.a[1]<0){fail(EINVAL);break;} f->pos=b+q.a[1]; ret=f->pos; break; }
	case OP_CLOSE:{ OF f=getfd(p,(int)q.a[0]); if(!f){fail(EBADF);break;} if(f->ino)dropLocks(f->ino,p->idx); p->fds.erase((int)q.a[0]); break; }
	case OP_FSTAT: case OP_STAT: case OP_LSTAT:{
		sim_stat s; memset(&s,0,sizeof s); Inode*i=nullptr;
		if(op==OP_FSTAT){ OF f=getfd(p,(int)q.a[0]); if(!f){fail(EBADF);break;} if(f->pipe){s.type=S_IFIFO;s.mode=0600;s.nlink=1;} else if(f->sink){s.type=f->sink->tty?S_IFCHR:S_IFIFO;s.mode=0600;s.nlink=1;} else i=f->ino; }
		else { Res r=resolve(p->cwd,P(c),op==OP_STAT); if(r.err){fail(r.err);break;} i=r.ino; if(!i){fail(ENOENT);break;} }
		if(i){ s.type=i->type; s.mode=i->mode; s.size=isize(i); s.ino=i->ino; s.nlink=i->nlink; s.mtime=i->mtime/1000000; }
		out.assign((char*)&s,sizeof s); isout=true; break; }
	case OP_ACCESS:{ Res r=resolve(p->cwd,P(c),true); if(r.err||!r.ino){fail(r.err?r.err:ENOENT);break;} if((q.a[0]&W_OK)&&(r.ino->host||!(r.ino->mode&0200)))fail(EACCES); else if((q.a[0]&R_OK)&&!(r.ino->mode&0400))fail(EACCES); else if((q.a[0]&X_OK)&&!(r.ino->mode&0111))fail(EACCES); break; }
	case OP_MKDIR:{ Res r=resolve(p->cwd,P(c),false); if(r.ino){fail(EEXIST);break;} if(!r.par){fail(r.err);break;} if(r.err!=ENOENT){fail(r.err);break;} if(r.par->host){fail(EROFS);break;} if(!(r.par->mode&0200)){fail(EACCES);break;} if(quota==0){fail(ENOSPC);break;} Inode*i=newino(S_IFDIR,(unsigned)q.a[0]&0777&~p->umask_); i->parent=r.par; r.par->ch[r.name]=i; break; }
	case OP_RMDIR: case OP_UNLINK:{ Res r=resolve(p->cwd,P(c),false); if(r.err||!r.ino){fail(r.err?r.err:ENOENT);break;} if(r.ino->host||r.par->host){fail(EROFS);break;} if(!(r.par->mode&0200)){fail(EACCES);break;} if(op==OP_UNLINK){ if(r.ino->type==S_IFDIR){fail(EISDIR);break;} } else { if(r.ino->type!=S_IFDIR){fail(ENOTDIR);break;} if(r.ino==root||r.name=="."||r.name==".."){fail(EINVAL);break;} if(!r.ino->ch.empty()){fail(ENOTEMPTY);break;} } r.par->ch.erase(r.name); r.ino->nlink--; freeIno(r.ino); break; }
	case OP_RENAME:{ Res a=resolve(p->cwd,P(c),false),b=resolve(p->cwd,P2(c),false); if(a.err||!a.ino){fail(a.err?a.err:ENOENT);break;} if(!b.par||(b.err&&b.err!=ENOENT)){fail(b.err);break;} if(a.par->host||b.par->host||a.ino->host){fail(EROFS);break;} if(!(a.par->mode&0200)||!(b.par->mode&0200)){fail(EACCES);break;}
		if(a.ino==b.ino)break; if(b.ino){ if(q.a[0]&1){fail(EEXIST);break;} if(b.ino->type==S_IFDIR){ if(a.ino->type!=S_IFDIR){fail(EISDIR);break;} if(!b.ino->ch.empty()){fail(ENOTEMPTY);break;} } else if(a.ino->type==S_IFDIR){fail(ENOTDIR);break;} b.ino->nlink--; freeIno(b.ino); }
		if(a.ino->type==S_IFDIR){ bool sub=false; for(Inode*x=b.par;x;x=x->parent){ if(x==a.ino){sub=true;break;} if(x==root)break; } if(sub){fail(EINVAL);break;} }
		a.par->ch.erase(a.name); b.par->ch[b.name]=a.ino; a.ino->parent=b.par; break; }
	case OP_LINK:{ Res a=resolve(p->cwd,P(c),false),b=resolve(p->cwd,P2(c),false); if(a.err||!a.ino){fail(a.err?a.err:ENOENT);break;} if(b.ino){fail(EEXIST);break;} if(!b.par||b.err!=ENOENT){fail(b.err);break;} if(b.par->host||a.ino->host){fail(EXDEV);break;} if(a.ino->type==S_IFDIR){fail(EPERM);break;} b.par->ch[b.name]=a.ino; a.ino->nlink++; break; }
	case OP_SYMLINK:{ Res b=resolve(p->cwd,P2(c),false); if(b.ino){fail(EEXIST);break;} if(!b.par||b.err!=ENOENT){fail(b.err);break;} if(b.par->host){fail(EROFS);break;} Inode*i=newino(S_IFLNK,0777); i->target=P(c); b.par->ch[b.name]=i; break; }
	case OP_READLINK:{ Res r=resolve(p->cwd,P(c),false); if(r.err||!r.ino){fail(r.err?r.err:ENOENT);break;} if(r.ino->type!=S_IFLNK){fail(EINVAL);break;} out=r.ino->target.substr(0,q.a[0]); ret=out.size(); isout=true; break; }
	case OP_CHMOD:{ Inode*i; if(c->pay.empty()){ OF f=getfd(p,(int)q.a[1]); if(!f||!f->ino){fail(EBADF);break;} i=f->ino; } else { Res r=resolve(p->cwd,P(c),true); if(r.err||!r.ino){fail(r.err?r.err:ENOENT);break;} i=r.ino; } if(i->host){fail(EROFS);break;} i->mode=(unsigned)q.a[0]&0777; break; }
	case OP_FTRUNCATE: case OP_TRUNCATE:{ Inode*i; i64 l; if(op==OP_FTRUNCATE){ OF f=getfd(p,(int)q.a[0]); if(!f||!f->ino||(f->flags&O_ACCMODE)==O_RDONLY){fail(EINVAL);break;} i=f->ino; l=q.a[1]; } else { Res r=resolve(p->cwd,P(c),true); if(r.err||!r.ino){fail(r.err?r.err:ENOENT);break;} i=r.ino; l=q.a[0]; } if(i->host){fail(EROFS);break;} i64 g=l-(i64)i->data.size(); if(g>0&&!chargeGrow(g)){fail(ENOSPC);break;} if(g<0&&quota>=0)quota-=g; i->data.resize(l); break; }
	case OP_FSYNC:{ OF f=getfd(p,(int)q.a[0]); if(!f)fail(EBADF); break; }
	case OP_UTIMES:{ Res r=resolve(p->cwd,P(c),true); if(r.err||!r.ino)fail(r.err?r.err:ENOENT); break; }
	case OP_READDIR:{ Res r=resolve(p->cwd,P(c),true); if(r.err||!r.ino){fail(r.err?r.err:ENOENT);break;} if(r.ino->type!=S_IFDIR){fail(ENOTDIR);break;} vector<std::pair<string,Inode*>> v; v.push_back({".",r.ino}); v.push_back({"..",r.ino}); for(auto&kv:r.ino->ch)v.push_back(kv);
		if(r.ino->host||r.ino==root){ string hp=r.ino->host?r.ino->hostpath:"/"; if(DIR*d=opendir(hp.c_str())){ vector<string> ns; while(dirent*e=readdir(d)){ string s=e->d_name; if(s!="."&&s!=".."&&!r.ino->ch.count(s))ns.push_back(s);} closedir(d); std::sort(ns.begin(),ns.end()); for(auto&s:ns){ Inode*x=lookup1(r.ino,s); if(x)v.push_back({s,x}); } } }
		if(dirseed) std::sort(v.begin(),v.end(),[&](auto&a,auto&b){ u64 x=fnv(a.first.data(),a.first.size(),dirseed),y=fnv(b.first.data(),b.first.size(),dirseed); return x!=y?x<y:a.first<b.first; });
		for(auto&kv:v){ unsigned t=kv.second->type; char dt=dtunknown?0:t==S_IFDIR?DT_DIR:t==S_IFLNK?DT_LNK:t==S_IFREG?DT_REG:DT_CHR; out+=dt; out+=kv.first; out+='\0'; } isout=true; break; }
	case OP_GETCWD: out=p->cwd; out+='\0'; isout=true; break;
	case OP_CHDIR:{ Res r=resolve(p->cwd,P(c),true); if(r.err||!r.ino){fail(r.err?r.err:ENOENT);break;} if(r.ino->type!=S_IFDIR){fail(ENOTDIR);break;} p->cwd=r.full; break; }
	case OP_REALPATH:{ Res r=resolve(p->cwd,P(c),true); if(r.err||!r.ino){fail(r.err?r.err:ENOENT);break;} out=r.full; out+='\0'; isout=true; break; }
	case OP_DUP:{ OF f=getfd(p,(int)q.a[0]); if(!f){fail(EBADF);break;} ret=allocfd(p,f,(int)q.a[1]); break; }
	case OP_DUP2:{ OF f=getfd(p,(int)q.a[0]); if(!f){fail(EBADF);break;} p->fds[(int)q.a[1]]=f; ret=q.a[1]; break; }
	case OP_PIPE:{ auto pp=std::make_shared<Pipe>(); pp->readers=pp->writers=1; OF a=std::make_shared<OFile>(),b=std::make_shared<OFile>(); a->pipe=b->pipe=pp; a->pend=0; b->pend=1; a->flags=O_RDONLY; b->flags=O_WRONLY; a->path=b->path="pipe:"; int r[2]={allocfd(p,a),0}; r[1]=allocfd(p,b); out.assign((char*)r,sizeof r); isout=true; break; }
	case OP_LOCK:{ OF f=getfd(p,(int)q.a[0]); if(!f||!f->ino){fail(EBADF);break;} int t=(int)q.a[1]; bool conf=false; if(t!=F_UNLCK) for(auto&l:f->ino->locks) if(l.first!=p->idx&&(t==F_WRLCK||l.second==F_WRLCK))conf=true; if(conf){fail(EAGAIN);break;} dropLocks(f->ino,p->idx); if(t!=F_UNLCK)f->ino->locks.push_back({p->idx,t}); break; }
	case OP_ISATTY:{ OF f=getfd(p,(int)q.a[0]); if(!f){fail(EBADF);break;} ret=f->sink&&f->sink->tty; break; }
	case OP_GETFL:{ OF f=getfd(p,(int)q.a[0]); if(!f){fail(EBADF);break;} ret=f->flags&~(O_CREAT|O_TRUNC|O_EXCL); break; }
	case OP_SETFL:{ OF f=getfd(p,(int)q.a[0]); if(!f){fail(EBADF);break;} f->flags=(f->flags&~(O_NONBLOCK|O_APPEND))|((int)q.a[1]&(O_NONBLOCK|O_APPEND)); break; }
	case OP_FIONREAD:{ OF f=getfd(p,(int)q.a[0]); if(!f){fail(EBADF);break;} if(f->pipe)ret=f->pipe->buf.size(); else if(f->ino&&f->ino->type==S_IFREG)ret=std::max<i64>(0,(i64)isize(f->ino)-f->pos); else fail(ENOTTY); break; }
	case OP_POLL:{ auto*v=(struct pollfd*)&c->pay[0]; ret=0; for(i64 i=0;i<q.a[0];i++){ v[i].revents=pollFd(p,v[i].fd,v[i].events); if(v[i].revents)ret++; } out=c->pay; isout=true; break; }
	case OP_UMASK: ret=p->umask_; p->umask_=(unsigned)q.a[0]&0777; break;
	case OP_FORK:{
		Proc*n=new Proc; n->idx=procs.size(); n->pid=++pidctr; n->par=n->opar=p->idx; n->fds=p->fds; n->cwd=p->cwd; n->umask_=p->umask_; n->sems=p->sems; n->mutex=p->mutex; n->out=p->out; n->err=p->err; n->launch=p->launch; n->startstep=step_; procs.push_back(n);
		int cfd; newchan(n,cfd); n->chans.back()->st=0; logf("%" PRIu64 " p%d FORK -> p%d",step_,p->idx,n->idx);
		reply(c,n->pid,0,nullptr,0,cfd); close(cfd); if(after_kill){} return; }
	case OP_FORKED:{ for(Proc*n:procs) if(n->pid==(int)q.a[0]) n->real=(pid_t)q.a[1]; break; }
	case OP_WAITPID:{ int want=(int)q.a[0],opt=(int)q.a[1]; bool any=false; Proc*hit=nullptr; int st=0; for(Proc*x:procs){ if(x->par!=p->idx||x->reaped)continue; if(want>0&&x->pid!=want)continue; any=true; if(!x->alive){hit=x;st=x->status;x->reaped=true;break;} if((opt&WUNTRACED)&&x->evstop){hit=x;st=0x7f|(x->evstop<<8);x->evstop=0;break;} if((opt&WCONTINUED)&&x->evcont){hit=x;st=0xffff;x->evcont=false;break;} }
		if(hit){ ret=hit->pid; out.assign((char*)&st,sizeof st); isout=true; } else if(!any) fail(ECHILD); else ret=0; break; }
	case OP_KILL:{ int want=(int)q.a[0],sig=(int)q.a[1]; Proc*t=nullptr; for(Proc*x:procs) if(x->pid==want&&!x->reaped) t=x; if(want==0)t=p; if(!t){fail(ESRCH);break;} if(sig==0)break; if(!t->alive)break;
		if(sig==SIGSTOP||sig==SIGTSTP){ stopProc(t,sig); addEvent(step_+8+det(t->idx,40),t->idx,1); break; } if(sig==SIGCONT){contProc(t);break;} if(t==p){ret=1;break;} logf("%" PRIu64 " p%d KILL p%d sig%d",step_,p->idx,t->idx,sig); killProc(t,sig); break; }
	case OP_GETPID: ret=p->pid; break;
	case OP_GETPPID: ret=p->par>=0?procs[p->par]->pid:1; break;
	case OP_TIME: ret=simtime; break;
	case OP_SLEEP: break;
	case OP_MPROTECT: case OP_MMAP: break;
	case OP_DLOPEN:{ string s=P(c); if(s.find('/')==string::npos){ret=0;break;} Res r=resolve(p->cwd,s,true); if(r.err||!r.ino){fail(ENOENT);break;} if(r.ino->host){ret=0;break;} out=r.ino->data; ret=1; isout=true; break; }
	case OP_SEMINIT: p->sems[q.a[0]]=q.a[1]; break;
	case OP_SEMWAIT: p->sems[q.a[0]]--; break;
	case OP_SEMTRY: if(p->sems[q.a[0]]>0)p->sems[q.a[0]]--; else fail(EAGAIN); break;
	case OP_SEMPOST: p->sems[q.a[0]]++; break;
	case OP_MUTEXLOCK: if(p->mutex[q.a[0]]==0)p->mutex[q.a[0]]=1; else fail(EBUSY); break;
	case OP_MUTEXUNLOCK: p->mutex[q.a[0]]=0; break;
	case OP_THREAD:{ int cfd; Chan*n=newchan(p,cfd); n->st=0; n->tid=++p->threads; logf("%" PRIu64 " p%d THREAD t%d",step_,p->idx,n->tid); reply(c,n->tid,0,nullptr,0,cfd); close(cfd); return; }
	case OP_THREADEXIT: p->deadthr.insert((int)q.a[0]); break;
	case OP_THREADJOIN: break;
	case OP_FDCOUNT: ret=p->fds.size(); break;
	case OP_RANDOM: { u64 v[2]={wseed,++rndctr}; ret=(i64)(fnv(v,sizeof v)>>1); }; break;
	default: fail(ENOSYS);
	}
done:
	{ u64 ph=fnv(c->pay.data(),c->pay.size()); if(op==OP_SEMINIT||op==OP_SEMWAIT||op==OP_SEMPOST||op==OP_SEMTRY||op==OP_MUTEXLOCK||op==OP_MUTEXUNLOCK) logf("%" PRIu64 " p%d.%d %s -> %" PRId64 "%s",step_,p->idx,c->tid,opname[op],ret,ret<0?strerror(err):"");
	  else logf("%" PRIu64 " p%d.%d #%" PRIu64 " %s %" PRId64 ",%" PRId64 " %s h%" PRIx64 " -> %" PRId64 " %s",step_,p->idx,c->tid,c->opno,opname[op],op==OP_HELLO||op==OP_FORKED?0:q.a[0],op==OP_FORKED?0:q.a[1],path.c_str(),ph,ret,ret<0?strerror(err):""); if(isout) loghash=fnv(out.data(),out.size(),loghash); }
	if(after_kill){ killProc(p,SIGKILL); return; }
	bool texit=op==OP_THREADEXIT;
	reply(c,ret,err,out.data(),out.size());
	if(texit) c->st=2;
}
// ---------------------------------------------------------------------- runs
static bool anyAlive(){ for(Proc*p:procs) if(p->alive)return true; return false; }
static void killAll(){ for(size_t i=0;i<procs.size();i++) if(procs[i]->alive){ if(procs[i]->real>0)killProc(procs[i],SIGKILL); else procs[i]->alive=false; } }
static string runWorld(u64 maxsteps){
	timedout=false; u64 lim=step_+maxsteps;
	for(;;){
		for(size_t i=0;i<chans.size();i++) if(chans[i]->st==0&&chans[i]->fd>=0&&chans[i]->p->alive) park(chans[i]);
		bool again=false; for(Chan*c:chans) if(c->st==0&&c->fd>=0&&c->p->alive) again=true; if(again)continue;
		if(timedout){ killAll(); return "timeout"; }
		if(!anyAlive())return "ok";
		// events due
		for(size_t i=0;i<events.size();){ if(events[i].step<=step_){ Event e=events[i]; events.erase(events.begin()+i); if(e.what==1)contProc(procs[e.proc]); } else i++; }
		if(!feeds.empty())feedPipes();
		vector<Chan*> run; for(Chan*c:chans) if(canRun(c))run.push_back(c);
		if(run.empty()){
			if(!events.empty()){ size_t b=0; for(size_t i=1;i<events.size();i++) if(events[i].step<events[b].step)b=i; events[b].step=0; continue; }
			i64 best=-1; for(Chan*c:chans) if(c->st==1&&c->p->alive&&!c->p->stopped&&(c->q.op==OP_SLEEP||c->q.op==OP_POLL)&&c->deadline>=0&&c->deadline!=INT64_MAX&&(best<0||c->deadline<best))best=c->deadline;
			for(auto&pp:feeds) if(pp->fi<pp->feed.size()&&(best<0||pp->due<best))best=pp->due;
			if(best>=0){ simtime=std::max(simtime,best); continue; }
			logf("deadlock"); killAll(); return "deadlock";
		}
		if(step_>=lim){ killAll(); return "steplimit"; }
		step_++;
		Chan*pick=nullptr; Chan*def=nullptr; for(Chan*c:run) if(c->id==lastchan)def=c; if(!def)def=run[0];
		pick=def;
		if(run.size()>1&&!(def->keep&&def->id==lastchan&&def->p->threads)){
			if(schedreplay){ auto it=schedplan.find(step_); if(it!=schedplan.end()) for(Chan*c:run) if(c->id==it->second)pick=c; }
			else if(preppm&&rng.below(1000000)<preppm){ pick=run[rng.below(run.size())]; }
			decisions++;
			if(pick!=def)schedrec.push_back({step_,pick->id});
		}
		lastchan=pick->id; execOp(pick);
	}
}
// ------------------------------------------------------------------ commands
static string hexs(const string&s){ static const char*d="0123456789abcdef"; string r; r.reserve(s.size()*2); for(unsigned char c:s){r+=d[c>>4];r+=d[c&15];} return r; }
static string unhex(const string&s){ string r; auto v=[](char c){return c<='9'?c-'0':(c|32)-'a'+10;}; for(size_t i=0;i+1<s.size();i+=2)r+=(char)(v(s[i])*16+v(s[i+1])); return r; }
static string unq(const string&s){ string r; for(size_t i=0;i<s.size();i++){ if(s[i]=='%'&&i+2<s.size()){ r+=unhex(s.substr(i+1,2)); i+=2; } else r+=s[i]; } return r; }
static string js(const string&s){ string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){char b[8];snprintf(b,sizeof b,"\\u%04x",c);r+=b;} else r+=c; } return r+"\""; }
static void newWorld(u64 seed){
	killAll(); for(Chan*c:chans){ if(c->fd>=0)close(c->fd); delete c; } chans.clear(); for(Proc*p:procs)delete p; procs.clear(); for(Inode*i:winodes)delete i; winodes.clear();
	wseed=seed; rndctr=0; rng.seed(seed); rules.clear(); planned.clear(); schedplan.clear(); schedreplay=false; preppm=0; schedrec.clear(); fired.clear(); events.clear(); step_=0; simtime=1735689600LL*1000000; quota=-1; loghash=1469598103934665603ULL; logon=false; logtext.clear(); pidctr=1000; ofctr=0; dtunknown=false; dirseed=0; lastchan=-1; opcounts.clear(); decisions=0; inoctr=0; launchctr=0; optime=7; coredumps=false; feeds.clear();
	root=newino(S_IFDIR,0755); root->parent=root; mkpath("/tmp"); mkpath("/w"); mkpath("/etc"); mkpath("/dev"); mkpath("/proc"); mkpath("/home"); mkpath("/var"); mkpath("/root"); mkpath("/run"); mkpath("/sys"); mkpath("/verif"); mkpath("/repo"); mkpath("/opt"); mkpath("/mnt"); mkpath("/media"); mkpath("/srv"); mkpath("/boot");
	Inode*dev=mkpath("/dev"); auto chr=[&](const char*n,unsigned d,unsigned m){ Inode*i=newino(S_IFCHR,m); i->dev=d; dev->ch[n]=i; }; chr("null",3,0666); chr("full",28,0666); chr("stdin",10,0600|0); chr("stdout",10,0600|1); chr("stderr",10,0600|2);
	Inode*fdd=newino(S_IFDIR,0755); dev->ch["fd"]=fdd; for(int i=0;i<3;i++){ Inode*x=newino(S_IFCHR,0600|i); x->dev=10; fdd->ch[std::to_string(i)]=x; }
}
static void treeRec(Inode*n,const string&path,string&o,bool data,bool&first){
	if(!first)o+=","; first=false; o+=js(path)+":["; o+=n->type==S_IFDIR?"\"d\"":n->type==S_IFLNK?"\"l\"":n->type==S_IFREG?"\"f\"":"\"c\""; o+=","+std::to_string(n->mode)+","; if(n->type==S_IFLNK)o+=js(n->target); else if(n->type==S_IFREG){ if(n->host)hostload(n); o+=data?"\""+hexs(n->data)+"\"":std::to_string(n->data.size())+",\""+std::to_string(fnv(n->data.data(),n->data.size()))+"\""; } else o+="0"; o+=","+std::to_string(n->opens)+"]";
	if(n->type==S_IFDIR) for(auto&kv:n->ch)treeRec(kv.second,path+"/"+kv.first,o,data,first);
}
int main(){
	signal(SIGPIPE,SIG_IGN); prctl(PR_SET_PDEATHSIG,SIGKILL);
	covfd=memfd_create("cov",0); if(covfd>=0){ if(ftruncate(covfd,SIM_COVBITS)){} cov=(unsigned char*)mmap(0,SIM_COVBITS,PROT_READ|PROT_WRITE,MAP_SHARED,covfd,0); }
	newWorld(1); char*line=nullptr; size_t cap=0; ssize_t n;
	while((n=getline(&line,&cap,stdin))>0){
		if(line[n-1]=='\n')line[--n]=0; vector<string> t; { string c; for(ssize_t i=0;i<=n;i++){ if(i==n||line[i]==' '){ t.push_back(c); c.clear(); } else c+=line[i]; } }
		const string&cmd=t[0]; auto I=[&](size_t i){return i<t.size()?strtoll(t[i].c_str(),0,10):0;}; auto S=[&](size_t i){return i<t.size()?unq(t[i]):string();};
		if(cmd=="world")newWorld(strtoull(t[1].c_str(),0,10));
		else if(cmd=="set"){ string k=t[1]; if(k=="quota")quota=I(2); else if(k=="log"){logon=I(2);} else if(k=="dtunknown")dtunknown=I(2); else if(k=="dirseed")dirseed=strtoull(t[2].c_str(),0,10); else if(k=="time")simtime=I(2); else if(k=="optime")optime=I(2); else if(k=="core")coredumps=I(2); else if(k=="timeout")recvTimeoutS=I(2); else if(k=="preppm"){preppm=I(2);schedreplay=false;} else if(k=="pid")pidctr=I(2); else if(k=="reseed")rng.seed(strtoull(t[2].c_str(),0,10)); }
		else if(cmd=="file"||cmd=="link"||cmd=="dir"){ string p=S(1); size_t sl=p.rfind('/'); Inode*d=mkpath(p.substr(0,sl)); string nm=p.substr(sl+1);
			if(cmd=="dir"){ Inode*x=mkpath(p); x->mode=I(2); } else { Inode*x=newino(cmd=="file"?S_IFREG:S_IFLNK,cmd=="file"?(unsigned)I(2):0777); if(cmd=="file"){ if(t.size()>3)x->data=unhex(t[3]); } else x->target=S(2); x->parent=d; d->ch[nm]=x; } }
		else if(cmd=="rm"){ Res r=resolve("/",S(1),false); if(r.ino&&!r.ino->host)r.par->ch.erase(r.name); }
		else if(cmd=="fclear"){ rules.clear(); planned.clear(); schedplan.clear(); schedreplay=false; quota=-1; preppm=0; }
		else if(cmd=="rule"){ Rule r; r.op=t[1]; r.eff=t[2]; r.ppm=I(3); r.max=I(4); r.proc=(int)I(5); r.prefix=S(6); r.arg=I(7); rules.push_back(r); }
		else if(cmd=="at"){ Fault f; f.kind=t[3]; f.arg=I(4); planned[{(int)I(1),(u64)I(2)}]=f; }
		else if(cmd=="pre"){ schedreplay=true; if(t.size()>2)schedplan[(u64)I(1)]=(int)I(2); }
		else if(cmd=="launch"){ // launch actor cwd stdin tty params argc args... envc envs...
			Zyg&z=zyg(S(1)); Proc*p=new Proc; p->idx=procs.size(); p->pid=++pidctr; p->cwd=S(2); p->launch=++launchctr; p->startstep=step_; procs.push_back(p);
			string si=S(3); bool tty=I(4); OF f0=std::make_shared<OFile>(),f1=std::make_shared<OFile>(),f2=std::make_shared<OFile>();
			if(si.compare(0,5,"data:")==0){ f0->pipe=std::make_shared<Pipe>(); f0->pipe->readers=1; f0->pend=0; f0->pipe->buf=unhex(si.substr(5)); f0->path="std:in"; } else if(si.compare(0,5,"feed:")==0){ f0->pipe=std::make_shared<Pipe>(); f0->pipe->readers=f0->pipe->writers=1; f0->pend=0; f0->path="std:in"; string x=si.substr(5)+","; size_t a=0,e; while((e=x.find(',',a))!=string::npos){ string pc=x.substr(a,e-a); a=e+1; size_t at=pc.find('@'); if(at==string::npos)continue; f0->pipe->feed.push_back({strtoll(pc.c_str()+at+1,0,10),unhex(pc.substr(0,at))}); } if(f0->pipe->feed.empty())f0->pipe->writers=0; else { f0->pipe->due=simtime+f0->pipe->feed[0].first; feeds.push_back(f0->pipe); } }
			else if(si.compare(0,5,"file:")==0){ size_t at=si.rfind('@'); if(at!=string::npos){ f0->pos=strtoll(si.c_str()+at+1,0,10); si.resize(at); } Res r=resolve("/",si.substr(5),true); f0->ino=r.ino; if(r.ino)r.ino->opens++; f0->path="std:in"; } else { f0->ino=root->ch["dev"]->ch["null"]; f0->ino->opens++; f0->path="/dev/null"; }
			f0->flags=O_RDONLY; p->out=std::make_shared<Sink>(); p->err=std::make_shared<Sink>(); p->out->tty=p->err->tty=tty; f1->sink=p->out; f2->sink=p->err; f1->flags=f2->flags=O_WRONLY; f1->path="std:out"; f2->path="std:err"; p->fds[0]=f0;p->fds[1]=f1;p->fds[2]=f2;
			string blob=S(5); if(tty)blob+=",ttyout=1"; blob+='\0'; size_t k=6; size_t ac=I(k++); blob+=std::to_string(ac); blob+='\0'; for(size_t i=0;i<ac;i++){ blob+=S(k++); blob+='\0'; } size_t ec=I(k++); blob+=std::to_string(ec); blob+='\0'; for(size_t i=0;i<ec;i++){ blob+=S(k++); blob+='\0'; }
			int cfd; newchan(p,cfd); uint32_t len=blob.size(); sendfd(z.ctl,&len,sizeof len,cfd); sendall(z.ctl,blob.data(),blob.size()); int32_t rp=0; int kk=recvall(z.ctl,&rp,sizeof rp); p->real=rp; close(cfd); if(kk!=1){ printf("{\"error\":\"zygote failed\"}\n"); fflush(stdout); continue; }
			printf("{\"proc\":%d,\"pid\":%d}\n",p->idx,p->pid); fflush(stdout); }
		else if(cmd=="run"){
			size_t f0=fired.size(),s0=schedrec.size(); u64 st0=step_; i64 t0=simtime; string st=runWorld(I(1)); string o="{\"status\":\""+st+"\",\"steps\":"+std::to_string(step_-st0)+",\"step\":"+std::to_string(step_)+",\"simus\":"+std::to_string(simtime-t0)+",\"hash\":\""+std::to_string(loghash)+"\",\"quota\":"+std::to_string(quota)+",\"decisions\":"+std::to_string(decisions)+",\"procs\":[";
			for(size_t i=0;i<procs.size();i++){ Proc*p=procs[i]; if(i)o+=","; bool first=i==0||p->out!=procs[i-1]->out; (void)first; int s=p->status; o+="{\"idx\":"+std::to_string(p->idx)+",\"pid\":"+std::to_string(p->pid)+",\"par\":"+std::to_string(p->opar)+",\"launch\":"+std::to_string(p->launch)+",\"alive\":"+(p->alive?"true":"false")+",\"exit\":"+(WIFEXITED(s)?std::to_string(WEXITSTATUS(s)):"null")+",\"sig\":"+(WIFSIGNALED(s)?std::to_string(WTERMSIG(s)):"null")+",\"start\":"+std::to_string(p->startstep)+",\"end\":"+std::to_string(p->exitstep)+",\"ops\":"+std::to_string(p->ops)+",\"heap\":["+std::to_string(p->hb)+","+std::to_string(p->hbytes)+","+std::to_string(p->hallocs)+","+std::to_string(p->peak)+"],\"bb\":"+std::to_string(p->steps)+",\"notes\":["; for(size_t k=0;k<p->notes.size();k++){ if(k)o+=","; o+=js(p->notes[k]); } o+="]"; if(p->launch&&(i==0||p->opar<0)){ o+=",\"out\":"+js(p->out->data)+",\"err\":"+js(p->err->data); } o+="}"; }
			o+="],\"faults\":["; for(size_t i=f0;i<fired.size();i++){ if(i>f0)o+=","; o+="["+std::to_string(fired[i].proc)+","+std::to_string(fired[i].op)+","+js(fired[i].kind)+","+std::to_string(fired[i].arg)+","+js(fired[i].what)+"]"; }
			o+="],\"sched\":["; for(size_t i=s0;i<schedrec.size();i++){ if(i>s0)o+=","; o+="["+std::to_string(schedrec[i].first)+","+std::to_string(schedrec[i].second)+"]"; } o+="]}\n"; fputs(o.c_str(),stdout); fflush(stdout); }
		else if(cmd=="tree"){ Res r=resolve("/",S(1),true); string o="{"; bool first=true; if(r.ino&&!r.ino->host)treeRec(r.ino,S(1),o,I(2),first); o+="}\n"; fputs(o.c_str(),stdout); fflush(stdout); }
		else if(cmd=="read"){ Res r=resolve("/",S(1),true); if(r.ino&&r.ino->type==S_IFREG){ isize(r.ino); printf("\"%s\"\n",hexs(r.ino->data).c_str()); } else printf("null\n"); fflush(stdout); }
		else if(cmd=="log"){ printf("%s\n",js(logtext).c_str()); fflush(stdout); }
		else if(cmd=="ops"){ string o="{"; bool f=true; for(auto&kv:opcounts){ if(!f)o+=","; f=false; o+=js(kv.first)+":"+std::to_string(kv.second);} o+="}\n"; fputs(o.c_str(),stdout); fflush(stdout); }
		else if(cmd=="cov"){ int k=0; string b; for(int i=0;i<SIM_COVBITS;i+=8){ unsigned char v=0; for(int j=0;j<8;j++) if(cov&&cov[i+j]){v|=1<<j;k++;} b+=(char)v; } printf("[%d,\"%s\"]\n",k,I(1)?hexs(b).c_str():""); fflush(stdout); }
		else if(cmd=="quit")break;
		else { printf("{\"error\":\"bad command\"}\n"); fflush(stdout); }
	}
	killAll(); for(auto&z:zygs)kill(z.second.pid,SIGKILL); return 0;
}
