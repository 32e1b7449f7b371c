/*
 * Request server for the property checks: executes scripts of public libbsdconv API calls
 * (src/bsdconv.h) sent over a pipe, in one process built with AddressSanitizer.
 * Every request starts with no live instance; everything a request made is destroyed when
 * it ends, so a request is a pure function of its bytes.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <limits.h>
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include "bsdconv.h"

#define NSLOT 8
extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

static struct bsdconv_instance *slot[NSLOT];
static int slot_inited[NSLOT];
struct keep { struct keep *next; void *p; };
static struct keep *keeps;
static FILE *files[64];
static int nfiles;
static char *touched_env[64], *old_env[64];
static int ntouched;

static unsigned char *rq, *rq_end;
static unsigned char *rs;
static size_t rs_len, rs_cap;

static void die(const char *m){ fprintf(stderr, "server protocol error: %s\n", m); _exit(99); }
static void put(const void *p, size_t n){
	if(rs_len+n>rs_cap){ rs_cap=(rs_len+n)*2+4096; rs=realloc(rs, rs_cap); }
	if(n) memcpy(rs+rs_len, p, n);
	rs_len+=n;
}
static void put_i(int64_t v){ put(&v, 8); }
static void put_b(const void *p, size_t n){ uint32_t l=n; put(&l, 4); put(p, n); }
static void put_s(const char *s){ if(!s){ uint32_t l=0xffffffffu; put(&l,4);} else put_b(s, strlen(s)); }
static int get_op(void){ if(rq>=rq_end) die("op"); return *rq++; }
static int64_t get_i(void){ int64_t v; if(rq_end-rq<8) die("int"); memcpy(&v, rq, 8); rq+=8; return v; }
static unsigned char *get_b(uint32_t *n){
	uint32_t l; unsigned char *r;
	if(rq_end-rq<4) die("len");
	memcpy(&l, rq, 4); rq+=4;
	if(l==0xffffffffu){ *n=0; return NULL; }
	if((size_t)(rq_end-rq)<l) die("bytes");
	r=rq; rq+=l; *n=l; return r;
}
/* exact-size heap copies, so that the sanitizer sees any over-read */
static void *xkeep(void *p){ struct keep *k=malloc(sizeof *k); k->p=p; k->next=keeps; keeps=k; return p; }
static char *get_s(void){
	uint32_t n; unsigned char *b=get_b(&n); char *r;
	if(!b) return NULL;
	r=malloc(n+1); memcpy(r,b,n); r[n]=0; return xkeep(r);
}
static bsdconv_counter_t *saved[64];
static struct bsdconv_instance *get_slot(int *k){
	int64_t i=get_i(); if(i<0||i>=NSLOT) die("slot"); if(k) *k=i; return slot[i];
}
/* descriptors on /proc are the sanitizer's (its watcher thread opens a file now and then) or this loop's */
static int count_fds(void){
	int n=0; DIR *d=opendir("/proc/self/fd"); struct dirent *e; char to[64]; ssize_t l;
	if(!d) return -1;
	while((e=readdir(d))) if(e->d_name[0]!='.'){
		l=readlinkat(dirfd(d),e->d_name,to,sizeof to-1);
		if(l<0) continue;
		to[l]=0;
		if(strncmp(to,"/proc/",6)!=0) n++;
	}
	closedir(d); return n;
}
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
/* where a file does not exist, this platform's realpath() still fills in its path */
#include <sanitizer/msan_interface.h>
char *__interceptor_realpath(const char *, char *);
char *realpath(const char *p, char *to){
	char *r=__interceptor_realpath(p,to);
	if(!r && to && errno==ENOENT) __msan_unpoison(to,PATH_MAX);
	return r;
}
#endif
#endif
/* how many modules are mapped */
static int count_one(struct dl_phdr_info *i, size_t n, void *p){ if(i->dlpi_name && strstr(i->dlpi_name,"/share/bsdconv/")) ++*(int *)p; return 0; }
static int count_modules(void){ int n=0; dl_iterate_phdr(count_one,&n); return n; }
/* leave k descriptors free; k<0: no shortage */
static struct rlimit nofile0;
static int nofile_set;
static int set_nofile(int64_t k){
	struct rlimit l; int f;
	if(!nofile_set){ getrlimit(RLIMIT_NOFILE,&nofile0); nofile_set=1; }
	l=nofile0;
	if(k>=0){
		for(f=0;f<(int)nofile0.rlim_cur;f++) if(fcntl(f,F_GETFD)==-1 && k--==0) break;
		l.rlim_cur=f;
	}
	return setrlimit(RLIMIT_NOFILE,&l);
}
static void drop_keeps(void){ while(keeps){ struct keep *n=keeps->next; free(keeps->p); free(keeps); keeps=n; } }

struct slow { int fd, pre, chunk, signals; volatile int stop; char *got; size_t len, cap; pthread_t t, main; };
static void on_signal(int n){ (void)n; }
static void *slow_reader(void *p){
	struct slow *w=p; int i, round; ssize_t n; char b[4096];
	for(round=0;;round++){
		if(round<12 && !w->stop){
			usleep(100);
			for(i=0;i<w->signals && !w->stop;i++){ pthread_kill(w->main,SIGUSR1); usleep(30); }
		}
		n=read(w->fd,b,w->chunk<4096?w->chunk:4096);
		if(n==0) return NULL;
		if(n<0){ if(errno==EINTR) continue; die("slow"); }
		while(w->len+n>w->cap){ w->cap=w->cap?w->cap*2:65536; w->got=realloc(w->got,w->cap); } memcpy(w->got+w->len,b,n); w->len+=n;
	}
}
static void do_feed(void){
	int sk; struct bsdconv_instance *ins=get_slot(&sk);
	int64_t fl=get_i(), mode=get_i(), param=get_i();
	uint32_t n; unsigned char *b=get_b(&n);
	if(!ins){ put_i(-1); put_i(0); put_b("",0); return; }
	if(!slot_inited[sk]) die("feed before init");
	if(b){
		char *c=malloc(n?n:1); memcpy(c,b,n);
		if(n==0){ free(c); c=malloc(1); c[0]='!'; }
		ins->input.data=c; ins->input.len=n; ins->input.next=NULL;
		if(fl&2) ins->input.flags=F_FREE; else { ins->input.flags=0; xkeep(c); }
	}
	if(fl&1) ins->flush=1;
	switch(mode){
	case 0: ins->output_mode=BSDCONV_HOLD; bsdconv(ins); put_i(ins->output.len); put_i(ins->output.flags); put_b("",0); break;
	case 1:
		ins->output_mode=BSDCONV_AUTOMALLOC; ins->output.data=NULL; ins->output.len=param; bsdconv(ins);
		put_i(ins->output.len); put_i(ins->output.flags); put_b(ins->output.data, ins->output.len);
		if(param>0) memset((char*)ins->output.data+ins->output.len, 0x5a, param); /* the promised slack must be ours */
		bsdconv_free(ins->output.data); ins->output.data=NULL; ins->output.len=0; break;
	case 2:{
		char *o=malloc(param>0?param:1);
		ins->output_mode=BSDCONV_PREMALLOCED; ins->output.data=o; ins->output.len=param; bsdconv(ins);
		put_i(ins->output.len); put_i(ins->output.flags);
		if((int64_t)ins->output.len<=param) put_b(o, ins->output.len); else put_b("",0);
		free(o); ins->output.data=NULL; ins->output.len=0; break; }
	case 3:
		ins->output_mode=BSDCONV_PREMALLOCED; ins->output.data=NULL; ins->output.len=0; bsdconv(ins);
		put_i(ins->output.len); put_i(ins->output.flags); put_b("",0); ins->output.len=0; break;
	case 4:{
		char *o=NULL; size_t ol=0; FILE *f=open_memstream(&o,&ol);
		ins->output_mode=BSDCONV_FILE; ins->output.data=f; ins->output.len=0; bsdconv(ins);
		fclose(f); put_i(0); put_i(ins->output.flags); put_b(o,ol); free(o); ins->output.data=NULL; break; }
	case 5:{
		int fd=memfd_create("out",0); struct stat st; char *o;
		if(fd<0) die("memfd");
		ins->output_mode=BSDCONV_FD; ins->output.data=(void*)(intptr_t)fd; ins->output.len=0; bsdconv(ins);
		fstat(fd,&st); o=malloc(st.st_size+1); if(pread(fd,o,st.st_size,0)!=st.st_size) die("pread");
		close(fd); put_i(0); put_i(ins->output.flags); put_b(o,st.st_size); free(o); ins->output.data=NULL; break; }
	case 6: ins->output_mode=BSDCONV_NULL; ins->output.data=NULL; ins->output.len=0; bsdconv(ins); put_i(ins->output.len); put_i(ins->output.flags); put_b("",0); break;
	case 7:
		if(param<0||param>=NSLOT||!slot[param]) die("pass slot");
		ins->output_mode=BSDCONV_PASS; ins->output.data=slot[param]; bsdconv(ins);
		put_i(0); put_i(0); put_b("",0); break;
	case 8:{ /* a descriptor that takes the output slowly, while signals arrive */
		struct slow w; int p[2]; struct sigaction sa, old; char pad[4096];
		w.pre=(param>>16)&0xffff; w.chunk=1+((param>>4)&0xfff); w.signals=param&15; w.stop=0; w.got=NULL; w.len=w.cap=0; w.main=pthread_self();
		if(pipe(p)) die("pipe");
		fcntl(p[1],F_SETPIPE_SZ,4096); if(w.pre>4096) w.pre=4096;
		memset(pad,'P',sizeof pad); if(w.pre && write(p[1],pad,w.pre)!=w.pre) die("pad");
		memset(&sa,0,sizeof sa); sa.sa_handler=on_signal; sigaction(SIGUSR1,&sa,&old);
		w.fd=p[0]; if(pthread_create(&w.t,NULL,slow_reader,&w)) die("thread");
		ins->output_mode=BSDCONV_FD; ins->output.data=(void*)(intptr_t)p[1]; ins->output.len=0; bsdconv(ins);
		w.stop=1; close(p[1]); pthread_join(w.t,NULL); close(p[0]); sigaction(SIGUSR1,&old,NULL);
		put_i(0); put_i(ins->output.flags); put_b(w.got+w.pre,w.len-w.pre); free(w.got); ins->output.data=NULL; break; }
	default: die("mode");
	}
}

/* the same input over and over, and what the process has allocated after each quarter of the repetitions:
 * how 0: one stream; 1: initialised and flushed each time; 2: initialised, not flushed; out: 0 nothing wanted, 1 buffers, 2 a second instance */
static void do_soak(void){
	int sk; struct bsdconv_instance *ins=get_slot(&sk), *two;
	int64_t reps=get_i(), how=get_i(), out=get_i(), i; uint32_t n; unsigned char *b; int two_k;
	two=get_slot(&two_k); b=get_b(&n);
	if(!ins || (out==2 && !two)){ for(i=0;i<5;i++) put_i(-1); return; }
	if(!slot_inited[sk] || (out==2 && !slot_inited[two_k])) die("soak before init");
	for(i=0;i<reps;i++){
		char *c=malloc(n?n:1); memcpy(c,b,n);
		if(how){ bsdconv_init(ins); if(out==2) bsdconv_init(two); }
		ins->input.data=c; ins->input.len=n; ins->input.next=NULL; ins->input.flags=F_FREE;
		if(how==1) ins->flush=1;
		if(out==2){
			ins->output_mode=BSDCONV_PASS; ins->output.data=two; bsdconv(ins);
			if(how==1) two->flush=1;
			two->output_mode=BSDCONV_NULL; two->output.data=NULL; bsdconv(two);
		}else if(out==1){
			ins->output_mode=BSDCONV_AUTOMALLOC; ins->output.data=NULL; ins->output.len=0; bsdconv(ins);
			bsdconv_free(ins->output.data); ins->output.data=NULL; ins->output.len=0;
		}else{
			ins->output_mode=BSDCONV_NULL; ins->output.data=NULL; bsdconv(ins);
		}
		if((i+1)%(reps/4)==0 && (i+1)/(reps/4)<=4)
			put_i(__sanitizer_get_current_allocated_bytes?(int64_t)__sanitizer_get_current_allocated_bytes()-(int64_t)rs_cap:0);
	}
	put_i(count_fds());
}

/* cells in (one datum each), cells out: what codecs see, without encoding them as text */
static void do_cells(void){
	int sk; struct bsdconv_instance *ins=get_slot(&sk); int64_t fl=get_i(), n=get_i(), i; int first=1;
	struct data_rt *tail=NULL, *d; struct bsdconv_phase *last; size_t at; int64_t cnt=0;
	for(i=0;i<n;i++){
		uint32_t l; unsigned char *b=get_b(&l); char *c;
		if(!ins) continue;
		c=malloc(l?l:1); memcpy(c,b,l); xkeep(c);
		if(first){ d=&ins->input; first=0; }
		else { DATA_MALLOC(ins, d); tail->next=d; }
		d->data=c; d->len=l; d->flags=0; d->next=NULL; tail=d;
	}
	if(!ins){ put_i(-1); return; }
	if(!slot_inited[sk]) die("cells before init");
	if(fl&1) ins->flush=1;
	ins->output_mode=BSDCONV_HOLD;
	bsdconv(ins);
	at=rs_len; put_i(0);
	last=&ins->phase[ins->phasen];
	while(last->data_head->next){
		d=last->data_head->next; put_b(d->data, d->len); cnt++;
		last->data_head->next=d->next;
		DATUM_FREE(ins, d);
	}
	last->data_tail=last->data_head;
	memcpy(rs+at, &cnt, 8);
}

/* several instances, each in a thread of its own, all at work at the same time; every thread runs its input over and over
 * (after initialising the instance again) and keeps the first result that differs from its first one, if any */
struct job { struct bsdconv_instance *ins; unsigned char *b; uint32_t n, cut; int reps; pthread_t t; pthread_barrier_t *gate; char *out[2]; size_t len[2]; int64_t err[2][2]; int differ; };
static void once(struct job *j, int at){
	struct bsdconv_instance *i=j->ins; char *o=NULL; size_t l=0; int k;
	bsdconv_counter_reset(i,NULL);
	bsdconv_init(i);
	for(k=0;k<2;k++){
		i->input.data=(char *)j->b+(k?j->cut:0); i->input.len=k?j->n-j->cut:j->cut; i->input.next=NULL; i->input.flags=0;
		if(k) i->flush=1;
		i->output_mode=BSDCONV_AUTOMALLOC; i->output.data=NULL; i->output.len=0; bsdconv(i);
		o=realloc(o,l+i->output.len+1); memcpy(o+l,i->output.data,i->output.len); l+=i->output.len;
		bsdconv_free(i->output.data); i->output.data=NULL; i->output.len=0;
	}
	j->out[at]=o; j->len[at]=l; j->err[at][0]=*i->ierr; j->err[at][1]=*i->oerr;
}
static void *worker(void *p){
	struct job *j=p; int r;
	pthread_barrier_wait(j->gate);
	once(j,0);
	for(r=1;r<j->reps&&!j->differ;r++){
		once(j,1);
		if(j->len[0]!=j->len[1]||memcmp(j->out[0],j->out[1],j->len[0])||memcmp(j->err[0],j->err[1],sizeof j->err[0])) j->differ=1;
		else { free(j->out[1]); j->out[1]=NULL; }
	}
	return NULL;
}
static void do_threads(void){
	int64_t n=get_i(), reps=get_i(), i; struct job j[NSLOT]; pthread_barrier_t gate;
	if(n<1||n>NSLOT) die("threads");
	memset(j,0,sizeof j);
	pthread_barrier_init(&gate,NULL,n);
	for(i=0;i<n;i++){ uint32_t l; unsigned char *b; j[i].ins=get_slot(NULL); j[i].cut=get_i(); b=get_b(&l); j[i].b=malloc(l?l:1); memcpy(j[i].b,b,l); j[i].n=l; j[i].reps=reps; j[i].gate=&gate; if(!j[i].ins) die("thread slot"); }
	for(i=0;i<n;i++) if(pthread_create(&j[i].t,NULL,worker,&j[i])) die("pthread_create");
	for(i=0;i<n;i++) pthread_join(j[i].t,NULL);
	put_i(n);
	for(i=0;i<n;i++){ int d; for(d=0;d<2;d++){ if(d&&!j[i].differ) { put_i(-1); put_i(-1); put_s(NULL); } else { put_i(j[i].err[d][0]); put_i(j[i].err[d][1]); put_b(j[i].out[d],j[i].len[d]); } free(j[i].out[d]); } free(j[i].b); }
	pthread_barrier_destroy(&gate);
}

static void one(int op){
	struct bsdconv_instance *ins; int k; char *s,*s2,*r; int64_t a,b;
	switch(op){
	case 'C':{
		a=get_i(); s=get_s(); if(a<0||a>=NSLOT||slot[a]) die("create slot");
		errno=0; slot[a]=bsdconv_create(s); slot_inited[a]=0; int e=errno;
		put_i(slot[a]!=NULL); put_i(e);
		if(!slot[a]){ errno=e; r=bsdconv_error(); put_s(r); bsdconv_free(r); } else put_s("");
		break; }
	case 'D': ins=get_slot(&k); if(ins){ bsdconv_destroy(ins); slot[k]=NULL; } put_i(0); break;
	case 'I': ins=get_slot(&k); if(ins){ bsdconv_init(ins); slot_inited[k]=1; } put_i(ins!=NULL); break;
	case 'F': do_feed(); break;
	case '%': do_soak(); break;
	case 'G': do_cells(); break;
	case 'Z': do_threads(); break;
	case 'K':{
		ins=get_slot(NULL); struct bsdconv_counter_entry *c; int n=0;
		if(!ins){ put_i(0); break; }
		for(c=ins->counter;c;c=c->next) n++;
		put_i(n); for(c=ins->counter;c;c=c->next){ put_s(c->key); put_i(c->val); }
		break; }
	case 'k': ins=get_slot(NULL); s=get_s(); put_i(ins?(int64_t)*bsdconv_counter(ins,s):-1); break;
	case 'S': ins=get_slot(NULL); s=get_s(); a=get_i(); if(ins) *bsdconv_counter(ins,s)=a; put_i(0); break;
	case 'J':{ /* keep the address of a counter */ a=get_i(); ins=get_slot(NULL); s=get_s(); if(a<0||a>=64) die("J"); saved[a]=ins?bsdconv_counter(ins,s):NULL; put_i((intptr_t)saved[a]); break; }
	case 'j': a=get_i(); if(a<0||a>=64) die("j"); put_i(saved[a]?(int64_t)*saved[a]:-1); break;
	case 'W': a=get_i(); b=get_i(); if(a<0||a>=64) die("W"); if(saved[a]) *saved[a]=b; put_i(0); break;
	case 'i': ins=get_slot(NULL); put_i(ins?(int64_t)*ins->ierr:-1); put_i(ins?(int64_t)*ins->oerr:-1); break;
	case 'R': ins=get_slot(NULL); s=get_s(); if(ins) bsdconv_counter_reset(ins,s); put_i(0); break;
	case 'H':{
		a=get_i(); ins=get_slot(NULL); s=get_s(); b=get_i();
		if(!ins){ put_i(-1); break; }
		if(a==0){ bsdconv_hash_set(ins,s,(void*)(intptr_t)b); put_i(0); }
		else if(a==1) put_i((intptr_t)bsdconv_hash_get(ins,s));
		else if(a==2) put_i(bsdconv_hash_has(ins,s));
		else { bsdconv_hash_del(ins,s); put_i(0); }
		break; }
	case 'P': ins=get_slot(NULL); r=ins?bsdconv_pack(ins):NULL; put_s(r); if(r) bsdconv_free(r); break;
	case 'U':{
		int64_t w=get_i(); s=get_s(); s2=get_s(); a=get_i(); b=get_i();
		r = w==0?bsdconv_insert_phase(s,s2,a,b): w==1?bsdconv_insert_codec(s,s2,a,b): w==2?bsdconv_replace_phase(s,s2,a,b): bsdconv_replace_codec(s,s2,a,b);
		put_s(r); if(r) bsdconv_free(r); break; }
	case 'M': a=get_i(); s=get_s(); put_i(bsdconv_module_check(a,s)); break;
	case 'm': a=get_i(); s=get_s(); put_i(bsdconv_codec_check(a,s)); break;
	case 'A': a=get_i(); s=get_s(); r=bsdconv_solve_alias(a,s); put_s(r); if(r) bsdconv_free(r); break;
	case 'L': case 'l':{
		a=get_i(); char **l=op=='L'?bsdconv_modules_list(a):bsdconv_codecs_list(a), **p; int n=0;
		if(!l){ put_i(-1); break; }
		for(p=l;*p;p++) n++;
		put_i(n); for(p=l;*p;p++){ put_s(*p); bsdconv_free(*p);} bsdconv_free(l); break; }
	case 'T':{ /* ctl */
		ins=get_slot(NULL); a=get_i(); s=get_s(); b=get_i();
		if(!ins){ put_i(-1); break; }
		if(a==BSDCONV_CTL_ATTACH_SCORE || a==BSDCONV_CTL_ATTACH_OUTPUT_FILE){
			FILE *f=fopen(s, a==BSDCONV_CTL_ATTACH_SCORE?"r+b":"w+b"); if(!f){ put_i(-2); break; }
			if(nfiles<64) files[nfiles++]=f;
			bsdconv_ctl(ins,a,f,b);
		}else bsdconv_ctl(ins,a,s,b);
		put_i(0); break; }
	case 'Y':{ /* flush attached files */ int i; for(i=0;i<nfiles;i++) fflush(files[i]); put_i(0); break; }
	case 'X':{
		char *c=getcwd(NULL,0); put_i(__sanitizer_get_current_allocated_bytes?(int64_t)__sanitizer_get_current_allocated_bytes()-(int64_t)rs_cap:0);
		put_i(count_fds()); put_s(c); free(c); break; }
	case 'x': put_i(count_modules()); break;
	case 'z': a=get_i(); put_i(set_nofile(a)); break;
	case 'f':{ /* what a file holds now */
		s=get_s(); int fd=open(s,O_RDONLY); struct stat st; char *o; if(fd<0){ put_s(NULL); break; }
		fstat(fd,&st); o=malloc(st.st_size+1); ssize_t n=read(fd,o,st.st_size); put_b(o,n<0?0:n); free(o); close(fd); break; }
	case 'E': s=get_s(); s2=get_s(); if(ntouched<64){ touched_env[ntouched]=strdup(s); old_env[ntouched++]=getenv(s)?strdup(getenv(s)):NULL; }
		if(s2) setenv(s,s2,1); else unsetenv(s); put_i(0); break;
	case 'Q':{ ins=get_slot(NULL); int i; if(!ins){ put_i(-1); break; } put_i(ins->phasen); for(i=1;i<=ins->phasen;i++){ put_i(ins->phase[i].type); put_i(ins->phase[i].codecn);} break; }
	case 'g': ins=get_slot(NULL); a=get_i(); b=get_i(); if(!ins){ put_i(-99); put_i(-99); break; } put_i(bsdconv_get_phase_index(ins,a)); put_i(bsdconv_get_codec_index(ins,a,b)); break;
	case 'd':{ struct data_rt d; s=get_s(); memset(&d,0,sizeof d); int e=str2datum(s,&d); put_i(e); if(!e) put_b(d.data,d.len); else put_b("",0); if(!e) free(d.data); break; }
	case 'e':{ struct data_rt *d,*t; int e=-1, n=0; ins=get_slot(NULL); s=get_s(); if(!ins){ put_i(-99); put_i(0); break; }
		d=str2data(s,&e,ins); put_i(e); for(t=d;t;t=t->next) n++; put_i(n); for(t=d;t;t=t->next) put_b(t->data,t->len); if(d) DATA_FREE(ins,d); break; }
	case 'v':{ /* filter on one cell */
		uint32_t n; unsigned char *p; s=get_s(); p=get_b(&n); struct bsdconv_filter *f=load_filter(s);
		if(!f){ put_i(-1); break; }
		struct data_rt d; memset(&d,0,sizeof d); d.data=malloc(n?n:1); memcpy(d.data,p,n); d.len=n;
		put_i(f->cbfilter(&d)?1:0); free(d.data); unload_filter(f); break; }
	case 'V':{ /* filter on a range of code points, one byte each */
		s=get_s(); a=get_i(); b=get_i(); struct bsdconv_filter *f=load_filter(s); if(!f){ put_i(-1); break; }
		put_i(0); uint32_t l=b-a; put(&l,4); 
		for(;a<b;a++){ unsigned char c[5]; int n=0; struct data_rt d; c[n++]=1; if(a>0xffffff) c[n++]=a>>24; if(a>0xffff) c[n++]=a>>16; if(a>0xff) c[n++]=a>>8; c[n++]=a; memset(&d,0,sizeof d); d.data=malloc(n); memcpy(d.data,c,n); d.len=n; char q=f->cbfilter(&d)?1:0; put(&q,1); free(d.data);} 
		unload_filter(f); break; }
	case 'w':{ /* scorer */
		uint32_t n; unsigned char *p; s=get_s(); p=get_b(&n); struct bsdconv_scorer *f=load_scorer(s);
		if(!f){ put_i(-1000000); break; }
		struct data_rt d; memset(&d,0,sizeof d); d.data=malloc(n?n:1); memcpy(d.data,p,n); d.len=n;
		put_i(f->cbscorer(&d)); free(d.data); unload_scorer(f); break; }
	default: die("unknown op");
	}
}

static int preload(const char *dir){
	static const char *sub[]={"from","inter","to","filter","scorer",NULL}; int i,n=0; char p[PATH_MAX];
	for(i=0;sub[i];i++){
		snprintf(p,sizeof p,"%s/share/bsdconv/%s",dir,sub[i]); DIR *d=opendir(p); struct dirent *e; if(!d) continue;
		while((e=readdir(d))){ size_t l=strlen(e->d_name); char q[PATH_MAX*2];
			if(l<4||strcmp(e->d_name+l-3,".so")) continue;
			snprintf(q,sizeof q,"%s/%s",p,e->d_name); if(dlopen(q,RTLD_LAZY)) n++; }
		closedir(d);
	}
	return n;
}

static int fdi=3, fdo=4;
static int rd(void *p, size_t n){ size_t o=0; while(o<n){ ssize_t r=read(fdi,(char*)p+o,n-o); if(r<=0){ if(r<0&&errno==EINTR) continue; return 0;} o+=r; } return 1; }
static void wr(const void *p, size_t n){ size_t o=0; while(o<n){ ssize_t r=write(fdo,(const char*)p+o,n-o); if(r<=0){ if(r<0&&errno==EINTR) continue; _exit(98);} o+=r; } }

int main(int argc, char **argv){
	int i; char home[PATH_MAX];
	int cpu=argc>1?atoi(argv[1]):20;
	if(argc>3){ fdi=atoi(argv[2]); fdo=atoi(argv[3]); }
	if(!getcwd(home,sizeof home)) return 97;
	if(getenv("BSDCONV_PATH") && !getenv("PBT_NOPRELOAD")) preload(getenv("BSDCONV_PATH"));
	uint32_t hello=0; wr(&hello,4);
	for(;;){
		uint32_t n; unsigned char *buf;
		if(!rd(&n,4)) return 0;
		buf=malloc(n?n:1); if(!rd(buf,n)) return 0;
		struct itimerval tv={{0,0},{cpu,0}}; setitimer(ITIMER_PROF,&tv,NULL); /* SIGPROF kills: runaway loop */
		rs_len=0; rs=NULL; rs_cap=0;
		rq=buf; rq_end=buf+n;
		while(rq<rq_end) one(get_op());
		for(i=0;i<NSLOT;i++) if(slot[i]){ bsdconv_destroy(slot[i]); slot[i]=NULL; }
		memset(saved,0,sizeof saved);
		drop_keeps();
		for(i=0;i<nfiles;i++) fclose(files[i]);
		nfiles=0;
		while(ntouched>0){ ntouched--; if(old_env[ntouched]) setenv(touched_env[ntouched],old_env[ntouched],1); else unsetenv(touched_env[ntouched]); free(touched_env[ntouched]); free(old_env[ntouched]); }
		if(nofile_set) set_nofile(-1);
		if(chdir(home)) return 96;
		struct itimerval z={{0,0},{0,0}}; setitimer(ITIMER_PROF,&z,NULL);
		free(buf);
		uint32_t l=rs_len; wr(&l,4); wr(rs,rs_len); free(rs);
	}
}
