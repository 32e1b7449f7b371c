From 2677e2661b2d54000f816e63e2d45e10f5cec9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 01/90] fix: unpack writes one element past its phase table

The strsep() loop stores the terminating NULL of the last phase in
phase_off[phasen+1], one element past the end of the array.
---
 src/libbsdconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 4dab01c..b6b8bfb 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -315,7 +315,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 		if(*t==':' || *t=='|')++i;
 	}
 	ins->phasen=i;
-	char *phase_off[i+1];
+	char *phase_off[i+2];
 
 	ins->phase=malloc(sizeof(struct bsdconv_phase) * (i+1));
 
-- 
2.43.0


From 4d62a2106f06c12be389c480c110848affff43ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 02/90] fix: hash_get returns the value of another key after
 moving the entry to the front

---
 src/libbsdconv_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_hash.c b/src/libbsdconv_hash.c
index b9d0a8d..4d90d5e 100644
--- a/src/libbsdconv_hash.c
+++ b/src/libbsdconv_hash.c
@@ -34,7 +34,7 @@ void *bsdconv_hash_get(struct bsdconv_instance *ins, const char *key){
 			p->ptr=ins->hash->ptr;
 			ins->hash->key=tk;
 			ins->hash->ptr=tp;
-			return p->ptr;
+			return tp;
 		}
 		p=p->next;
 	}
-- 
2.43.0


From ea1d7d580443c92c1c36baac638318b4a5f2dfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 03/90] fix: hash_del unlinks the wrong entry and reads past
 the end of the list

---
 src/libbsdconv_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_hash.c b/src/libbsdconv_hash.c
index 4d90d5e..d50371d 100644
--- a/src/libbsdconv_hash.c
+++ b/src/libbsdconv_hash.c
@@ -70,7 +70,7 @@ void bsdconv_hash_del(struct bsdconv_instance *ins, const char *key){
 			free(p);
 			return;
 		}
-		p=p->next;
 		q=&p->next;
+		p=p->next;
 	}
 }
-- 
2.43.0


From 47cce5ea66ab268d2e5494a35474f966bf6beed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 04/90] fix: str2datum and str2data write past their buffer for
 an odd number of digits

---
 src/libbsdconv_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index 94e3bca..80144c5 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -26,7 +26,7 @@ int str2datum(const char *s, struct data_rt *d){
 	d->len=0;
 	if(!s)
 		return EINVAL;
-	d->data=malloc(strlen(s)/2);
+	d->data=malloc(strlen(s)/2+1);
 	d->flags=F_FREE;
 	d->next=NULL;
 	char f=0;
@@ -79,7 +79,7 @@ struct data_rt * str2data(const char *_s, int *r, struct bsdconv_instance *ins){
 		t->next=NULL;
 		t->len=0;
 		t->flags=F_FREE;
-		t->data=malloc(strlen(k)/2);
+		t->data=malloc(strlen(k)/2+1);
 		f=0;
 		while(*k){
 			if(hex[(unsigned char) *k]<0){
-- 
2.43.0


From 501cc171740f5bd33ba320b31cc8158f42ae82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 05/90] fix: modules_list of an unknown type leaves the working
 directory changed

---
 src/libbsdconv_module.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 2cc822b..8328c02 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -184,6 +184,8 @@ char ** bsdconv_modules_list(int phase_type){
 			type="scorer";
 			break;
 		default:
+			chdir(cwd);
+			free(cwd);
 			return list;
 	}
 	dir=opendir(type);
-- 
2.43.0


From 866fb92308959a97aa791c80992ff3a09dddc1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 06/90] fix: module_check accepts directories and paths as
 modules and crashes on an unknown type

---
 src/libbsdconv_module.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 8328c02..60b7e0e 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -126,10 +126,13 @@ int bsdconv_module_check(int type, const char *_codec){
 			break;
 	}
 
-	fp=fopen(codec, "rb");
-	if(fp!=NULL){
-		fclose(fp);
-		ret=1;
+	/* only plain names, not paths, name a module */
+	if(codec!=NULL && codec[0]!='.' && strchr(codec, '/')==NULL){
+		fp=fopen(codec, "rb");
+		if(fp!=NULL){
+			fclose(fp);
+			ret=1;
+		}
 	}
 	free(codec);
 
-- 
2.43.0


From 50c88377f08e37cbacec024f9e52a331233f8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 07/90] fix: unpack leaks the earlier phases of a malformed
 conversion

---
 src/libbsdconv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index b6b8bfb..146c2ad 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -367,8 +367,10 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 				ins->phase[i].codec[j].argv+=1;
 			}
 			if(ins->phase[i].codec[j].desc[0]==0){
-				for(;j>=0;--j){
-					free(ins->phase[i].codec[j].desc);
+				for(;i>=1;j=ins->phase[--i].codecn){
+					for(;j>=0;--j){
+						free(ins->phase[i].codec[j].desc);
+					}
 				}
 				for(i=1;i<=ins->phasen;++i){
 					free(ins->phase[i].codec);
-- 
2.43.0


From a4bbebed078f2ccddfadc106087eccbed379cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 08/90] fix: arguments of an alias are read after being freed

---
 src/libbsdconv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 146c2ad..e2f3a7a 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -435,11 +435,13 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 					}else{
 						if(strcmp(c, ins->phase[i].codec[j].desc)==0)
 							e=1;
-						free(ins->phase[i].codec[j].desc);
+						d=ins->phase[i].codec[j].desc;
 						ins->phase[i].codec[j].desc=c;
 					}
 					free(conversion);
 					conversion=bsdconv_pack(ins);
+					if(c!=NULL)
+						free((char *)d); /* holds argv */
 					for(i=1;i<=ins->phasen;++i){
 						for(j=0;j<=ins->phase[i].codecn;++j){
 							free(ins->phase[i].codec[j].desc);
-- 
2.43.0


From ecb66420d81c925fc905e14b75b9e4c236696bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 09/90] fix: create crashes destroying a half-made instance
 when a vital module is missing

---
 src/libbsdconv.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index e2f3a7a..8ac80f3 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -425,7 +425,14 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 					if(bsdconv_module_vital(ins->phase[i].type, ins->phase[i].codec[j].desc)){
 						printf("error %s\n", ins->phase[i].codec[j].desc);
 						free(conversion);
-						bsdconv_destroy(ins);
+						for(i=1;i<=ins->phasen;++i){
+							for(j=0;j<=ins->phase[i].codecn;++j){
+								free(ins->phase[i].codec[j].desc);
+							}
+							free(ins->phase[i].codec);
+						}
+						free(ins->phase);
+						free(ins);
 						SetLastError(EDOOFUS);
 						return NULL;
 					}
-- 
2.43.0


From a9a888867107085f00ec4cbf36f2edd7fe82e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 10/90] fix: failed create leaks the data pool

---
 src/libbsdconv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 8ac80f3..c22c4e2 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -539,6 +539,11 @@ bsdconv_create_error:
 	free(ins->phase);
 
 	void *p;
+	while(ins->pool){
+		p=ins->pool->next;
+		free(ins->pool);
+		ins->pool=p;
+	}
 	while(ins->hash){
 		free(ins->hash->key);
 		p=ins->hash->next;
-- 
2.43.0


From 8ac3c835cd8f0a62c25208778f3b2657a46269a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 11/90] fix: input passed as a list is lost when more input
 follows before it is consumed

---
 src/libbsdconv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index c22c4e2..5f4f7c1 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -623,6 +623,8 @@ void bsdconv(struct bsdconv_instance *ins){
 		DATA_MALLOC(ins, ins->phase[0].data_tail->next);
 		ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		*(ins->phase[0].data_tail)=ins->input;
+		while(ins->phase[0].data_tail->next)
+			ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		ins->input.data=NULL;
 		ins->input.len=0;
 		ins->input.flags=0;
-- 
2.43.0


From 81eea7d63004e05830068a97ae2da8000ab9a843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 12/90] fix: input after the match of a decoder with its own
 flush is not read from where the match ended

---
 src/libbsdconv.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 5f4f7c1..3cc77fd 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -660,13 +660,12 @@ void bsdconv(struct bsdconv_instance *ins){
 								if(this_phase->flags & F_MATCH){
 									if(this_phase->match_data){
 										LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
-
-										LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
-										this_phase->curr=prev_phase->data_head;
-										this_phase->i=this_phase->data_head->len;
 									}else if(this_codec->cbflush){
 										this_codec->cbflush(ins);
 									}
+									LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+									this_phase->curr=prev_phase->data_head;
+									this_phase->i=this_phase->data_head->len;
 									this_phase->flags &= ~F_MATCH;
 									RESET(ins->phase_index);
 									goto phase_begin;
-- 
2.43.0


From 0f23de1990c316f69fa283a0b0a9109f1fe99040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 13/90] fix: UTF-8 decoder loses a lone lead surrogate followed
 by another kind of character

---
 modules/from/_UTF-8.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 884ee9a..cbcdfc8 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -54,7 +54,8 @@ void cbdestroy(struct bsdconv_instance *ins){
 
 #define DEADEND() do{	\
 	t->status = 0;	\
-	t->lead_surrogate.ucs4 = 0;	\
+	if(!t->loose) /* otherwise it is a match, see cbflush */	\
+		t->lead_surrogate.ucs4 = 0;	\
 	t->ucs.ucs4 = 0;	\
 	this_phase->state.status=DEADEND;	\
 	return;	\
@@ -153,6 +154,8 @@ void cbdestroy(struct bsdconv_instance *ins){
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
+	t->status = 0;
+	t->ucs.ucs4 = 0;
 	if(t->lead_surrogate.ucs4 && t->loose){
 		PASS(t->lead_surrogate);
 		t->lead_surrogate.ucs4 = 0;
-- 
2.43.0


From 32f0ee7040e643cbd448b2e31be94eaaf3407501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 14/90] fix: CESU surrogate pairs from U+20000 on decode to
 wrong code points

---
 modules/from/_UTF-8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index cbcdfc8..988eec7 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -91,7 +91,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
 				uint32_t cp = 0x10000;	\
-				cp |= ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
+				cp += ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
 				cp |= (ucs - 0xDC00) & bb1111111111;	\
 				t->ucs.ucs4 = htobe32(cp);	\
 				PASS(t->ucs);	\
-- 
2.43.0


From b77d488e93b3120f6351a03fbc953ee94da426e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 15/90] fix: UTF-8 decoder accepts code points over U+10FFFF
 without SUPER

---
 modules/from/_UTF-8.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 988eec7..372d4ae 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -241,6 +241,9 @@ void cbconv(struct bsdconv_instance *ins){
 				if((d & bb11000000) == bb10000000){ // 11110₁₁₁ *10₁₁₂₂₂₂ 10₂₂₂₂₃₃ 10₃₃₃₃₃₃, total 21 (+5)
 					t->status = 42;
 					t->ucs.byte[1] |= (d >> 4) & bb00000011;
+					if(!t->super && t->ucs.byte[1] > 0x10){
+						DEADEND();
+					}
 					if(!t->overlong && t->ucs.ucs4==0){
 						DEADEND();
 					}
-- 
2.43.0


From 8adb820dc0e8b7a51d9159ec1adaaf82f7bd11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 16/90] fix: BSDCONV decoder frees the last cell twice when
 used again

---
 modules/from/BSDCONV.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/from/BSDCONV.c b/modules/from/BSDCONV.c
index efc8c03..d6f6440 100644
--- a/modules/from/BSDCONV.c
+++ b/modules/from/BSDCONV.c
@@ -27,6 +27,7 @@ void cbinit(struct bsdconv_instance *ins){
 	t->data.len=0;
 	if(t->data.data)
 		free(t->data.data);
+	t->data.data=NULL;
 	t->data.next=NULL;
 	t->flag=F_CLEAR;
 }
@@ -42,7 +43,14 @@ void cbdestroy(struct bsdconv_instance *ins){
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
-	LISTCPY(ins, this_phase->data_tail, &t->data);
+	DATA_MALLOC(ins, this_phase->data_tail->next);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
+	this_phase->data_tail->data=t->data.data;
+	this_phase->data_tail->len=t->data.len;
+	this_phase->data_tail->flags=F_FREE;
+	t->data.data=NULL;
+	t->flag=F_CLEAR;
 }
 
 void cbconv(struct bsdconv_instance *ins){
-- 
2.43.0


From dc02b745cc0c37d817bf7b98e776d740bf083edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 17/90] fix: CP950-UDA decoder keeps a lead byte over
 initialization

---
 modules/from/CP950-UDA.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index fcc4f89..e25351c 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -17,6 +17,11 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->h = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	free(r);
-- 
2.43.0


From f8361d5a35ccb39efc59da98af5c03810490b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 18/90] fix: JIS decoder leaks its state when a table is
 missing

---
 modules/from/_JIS.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 67ebb02..b2929d4 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -23,22 +24,23 @@ struct my_s{
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r = malloc(sizeof(struct my_s));
 	THIS_CODEC(ins)->priv = r;
-	r->mode = MODE_ASCII;
-	r->state = 0;
 	r->jis0201.desc="_JIS0201";
 	r->jis0208.desc="_JIS0208";
 	r->jis0212.desc="_JIS0212";
 	if(!loadcodec(&r->jis0201, FROM)){
-		return 1;
+		free(r);
+		return EOPNOTSUPP;
 	}
 	if(!loadcodec(&r->jis0208, FROM)){
 		unloadcodec(&r->jis0201);
-		return 1;
+		free(r);
+		return EOPNOTSUPP;
 	}
 	if(!loadcodec(&r->jis0212, FROM)){
 		unloadcodec(&r->jis0201);
 		unloadcodec(&r->jis0208);
-		return 1;
+		free(r);
+		return EOPNOTSUPP;
 	}
 
 	return 0;
-- 
2.43.0


From 577b72fedaa5f2e1e654fc22a8e0d20ec4959d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 19/90] fix: JIS decoder keeps its mode over initialization

---
 modules/from/_JIS.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index b2929d4..0b41164 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -46,6 +46,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->mode = MODE_ASCII;
+	r->state = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	unloadcodec(&r->jis0201);
-- 
2.43.0


From 0618c0b5d08baafa308a40df2b0340f15fc0e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 20/90] fix: JIS decoder stays inside an unknown escape
 sequence

---
 modules/from/_JIS.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 0b41164..f03b371 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -114,6 +114,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = CONTINUE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -133,6 +134,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -161,6 +163,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -174,6 +177,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						break;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
-- 
2.43.0


From 31e132a169056ec09105026bec81b73fa1f6bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 21/90] fix: codecs keep the state of an incomplete unit that
 was flushed

---
 src/libbsdconv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 3cc77fd..9ee9c39 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -1020,6 +1020,9 @@ void bsdconv(struct bsdconv_instance *ins){
 				prev_phase=PREV_PHASE(ins);
 				this_phase=THIS_PHASE(ins);
 				this_codec=THIS_CODEC(ins);
+				/* what is pending will be examined again from its beginning */
+				if(this_phase->type!=TO && !(this_phase->flags & F_MATCH) && this_codec->cbinit)
+					this_codec->cbinit(ins);
 				switch(this_phase->type){
 					case FROM:	goto from_deadend;
 					case INTER:	goto inter_deadend;
-- 
2.43.0


From 2a4ca04b45d47670e9391f6b4585a41c81f333e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 22/90] fix: octal escapes over \377 are decoded to other bytes

---
 modules/from/ESCAPE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index fa5b8d2..0c80417 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -126,7 +126,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=t->buf[0];
 					i*=8;
 					i+=oct[(unsigned char)d];
-					if(i>377)
+					if(i>0377)
 						DEADEND();
 					t->buf[0]=i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
-- 
2.43.0


From 0993626770720aeee428e77ebe2bc9ff267a14ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 23/90] fix: escaped U+0000 reads past the buffer

---
 modules/from/ESCAPE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index 0c80417..677801e 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -177,7 +177,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=0;
 					t->buf[1]*=16;
 					t->buf[1]+=hex[(unsigned char)d];
-					while(t->buf[i]==0)++i;
+					if(t->buf[0]==0) i=1; /* NUL is 0100 */
 					DATA_MALLOC(ins, this_phase->data_tail->next);
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
-- 
2.43.0


From ec0df8eaa8899884a23e5d47859e545cc4adf220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 24/90] fix: U+0000 from UTF-16, UTF-32 and numeric entities
 has no code point

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 2 +-
 modules/from/UTF-16BE.c                  | 2 +-
 modules/from/UTF-16LE.c                  | 2 +-
 modules/from/UTF-32BE.c                  | 2 +-
 modules/from/UTF-32LE.c                  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index b4527b0..cd44542 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -50,7 +50,7 @@ void cbconv(struct bsdconv_instance *ins){
 			//put data
 			t->buf.i=htobe32(t->buf.i);
 			for(i=0;i<4;i++){
-				if(t->buf.c[i] || j)
+				if(t->buf.c[i] || j || i==3)
 					ob[j++]=t->buf.c[i];
 			}
 			DATA_MALLOC(ins, this_phase->data_tail->next);
diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 6e77e22..84f8a0e 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -47,7 +47,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* instead of 2, to map NUL to 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
diff --git a/modules/from/UTF-16LE.c b/modules/from/UTF-16LE.c
index 7bef7da..4c547a9 100644
--- a/modules/from/UTF-16LE.c
+++ b/modules/from/UTF-16LE.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* instead of 2, to map NUL to 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
diff --git a/modules/from/UTF-32BE.c b/modules/from/UTF-32BE.c
index 3c30195..610bcfc 100644
--- a/modules/from/UTF-32BE.c
+++ b/modules/from/UTF-32BE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[3]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* instead of 4, to map NUL to 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
diff --git a/modules/from/UTF-32LE.c b/modules/from/UTF-32LE.c
index b2758ba..99fa6b9 100644
--- a/modules/from/UTF-32LE.c
+++ b/modules/from/UTF-32LE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[0]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* instead of 4, to map NUL to 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
-- 
2.43.0


From 328c79b14a245252bde58f516c5132e1dae025cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 25/90] fix: UTF-16BE decoder does not set the flags of
 characters over U+FFFF

---
 modules/from/UTF-16BE.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 84f8a0e..d4da178 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -87,6 +87,7 @@ void cbconv(struct bsdconv_instance *ins){
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
 					this_phase->data_tail->len=l;
+					this_phase->data_tail->flags=F_FREE;
 					this_phase->data_tail->data=malloc(l);
 					CP(this_phase->data_tail->data)[0]=0x01;
 					memcpy(CP(this_phase->data_tail->data)+1, &buf[i], l-1);
-- 
2.43.0


From 1dbc5556f6b899ac80d3bd741d2833bd1e5e152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 26/90] fix: numeric entities without digits or over U+10FFFF
 are decoded to other characters

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index cd44542..39e913d 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -46,6 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
+		if(d==';' && t->status==1000) DEADEND(); /* no digits */
 		if(d==';' && t->status){
 			//put data
 			t->buf.i=htobe32(t->buf.i);
@@ -70,6 +71,7 @@ void cbconv(struct bsdconv_instance *ins){
 			if(t->tbl[(unsigned char)d]==-1) DEADEND();
 			t->buf.i*=t->b;
 			t->buf.i+=t->tbl[(unsigned char)d];
+			if(t->buf.i>0x10FFFF) DEADEND();
 		}else{
 			if(d=='x'){
 				t->status=1000;
-- 
2.43.0


From 69d0f1849412a640688ba91b09df7e8a9da29c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 27/90] fix: EBCDIC decoder swallows the rest of the input
 after an invalid double-byte character

---
 modules/from/EBCDIC.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/from/EBCDIC.c b/modules/from/EBCDIC.c
index cb6dc62..319c21b 100644
--- a/modules/from/EBCDIC.c
+++ b/modules/from/EBCDIC.c
@@ -28,6 +28,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct data_st data;
 	unsigned char *c;
 
+	if(this_phase->flags & F_LOOPBACK){ //called again: not followed by a trail byte
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 	c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
 
-- 
2.43.0


From 490a3ec7539927ad4eeb668d9c4f77f70a62aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 28/90] fix: EBCDIC encoder drops a character it cannot encode
 in double-byte mode without an error

---
 modules/to/EBCDIC.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index afb2170..8de5847 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -20,8 +20,10 @@ void cbinit(struct bsdconv_instance *ins){
 
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct bsdconv_phase *prev_phase=PREV_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
 
+	this_phase->curr=prev_phase->data_head;
 	this_phase->flags &= ~F_PENDING;
 	if(t->status!=0){
 		t->status=0;
-- 
2.43.0


From acace07f14b0d169e9988bba3e59d04eec1725ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 29/90] fix: NFC uses a freed character after another
 initialization

---
 modules/inter/_NFC.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 8d5370d..f4839bf 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -29,6 +29,7 @@ void cbinit(struct bsdconv_instance *ins){
 	struct data_rt *t;
 	if(r->starter){
 		DATUM_FREE(ins, r->starter);
+		r->starter=NULL;
 	}
 	while(r->pending_head->next){
 		t=r->pending_head->next->next;
@@ -103,6 +104,7 @@ void cbconv(struct bsdconv_instance *ins){
 							r->status=1;
 							r->starter=r->map->phase[r->map->phasen].data_head->next;
 							r->map->phase[r->map->phasen].data_head->next=NULL;
+							r->map->phase[r->map->phasen].data_tail=r->map->phase[r->map->phasen].data_head;
 						}else{
 							cbflush(ins);
 							r->status=1;
@@ -136,6 +138,7 @@ void cbconv(struct bsdconv_instance *ins){
 							r->status=1;
 							r->starter=r->map->phase[r->map->phasen].data_head->next;
 							r->map->phase[r->map->phasen].data_head->next=NULL;
+							r->map->phase[r->map->phasen].data_tail=r->map->phase[r->map->phasen].data_head;
 
 							if(r->pending_head->next){
 								t=this_phase->curr->next;
@@ -173,7 +176,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
 	struct data_rt *t;
 	bsdconv_destroy(r->map);
-	if(r->status){
+	if(r->starter){
 		DATUM_FREE(ins, r->starter);
 	}
 	while(r->pending_head){
-- 
2.43.0


From d1bc6c8c26b833831992061ba061df93b3992a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 30/90] fix: reordered marks not yet put out survive
 initialization and leak

---
 modules/inter/_NF-ORDER.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/modules/inter/_NF-ORDER.c b/modules/inter/_NF-ORDER.c
index 0b0a120..9fc9514 100644
--- a/modules/inter/_NF-ORDER.c
+++ b/modules/inter/_NF-ORDER.c
@@ -26,6 +26,18 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r=THIS_CODEC(ins)->priv;
+
+	while(r->head->next){
+		struct ll_s *next=r->head->next;
+		DATUM_FREE(ins, r->head->p);
+		free(r->head);
+		r->head=next;
+	}
+	r->head->prev=NULL;
+}
+
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
@@ -122,6 +134,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	cbinit(ins);
 	free(r->head);
 	free(r);
 }
-- 
2.43.0


From 554f9bf28f5f4b26ee9b0e6f5bde735144263bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 31/90] fix: Hangul decomposition drops everything that is not
 Unicode

---
 modules/inter/_NF-HANGUL-DECOMPOSITION.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/inter/_NF-HANGUL-DECOMPOSITION.c b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
index d882516..d584189 100644
--- a/modules/inter/_NF-HANGUL-DECOMPOSITION.c
+++ b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
@@ -32,6 +32,10 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
 		}
+	}else{
+		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+		this_phase->data_tail=this_phase->data_tail->next;
+		this_phase->data_tail->next=NULL;
 	}
 
 	this_phase->state.status=NEXTPHASE;
-- 
2.43.0


From 8814968ab40d645b44797ba16e6bc4a51c6828df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 32/90] fix: STRINGS frees a string that is too short twice

---
 modules/inter/STRINGS.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 14f0453..0ab01cd 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -119,6 +119,7 @@ void cbflush(struct bsdconv_instance *ins){
 				LISTCPY(ins, this_phase->data_tail, r->after);
 		}else{
 			DATA_FREE(ins, r->qh->next);
+			r->qh->next=NULL;
 			r->qt=r->qh;
 			r->acc_len=0;
 		}
-- 
2.43.0


From debb902065900bd31812469f5635d2dc0f3d1556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 33/90] fix: STRINGS with a negative MIN-LEN passes nothing

---
 modules/inter/STRINGS.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 0ab01cd..10da283 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -5,7 +5,7 @@
 struct my_s {
 	struct bsdconv_filter *filter;
 	struct data_rt *qh, *qt;
-	unsigned int acc_len;
+	int acc_len;
 	int min_len;
 	struct data_rt *after;
 	struct data_rt *before;
-- 
2.43.0


From 07da76b5a799df0e50c0de22610da2a01752790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 34/90] fix: arguments without their value crash

---
 modules/inter/PASS.c    |  2 +-
 modules/inter/SCORE.c   |  4 ++--
 modules/inter/STRINGS.c |  4 ++--
 modules/to/ESCAPE.c     | 14 ++++++++++++--
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/modules/inter/PASS.c b/modules/inter/PASS.c
index 9cf376a..ebeceef 100644
--- a/modules/inter/PASS.c
+++ b/modules/inter/PASS.c
@@ -21,7 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		if(strcasecmp(arg->key, "FOR")==0){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "LIMIT")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "LIMIT")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->limit=i;
 		}else{
 			free(r);
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 34b5fc5..99c1e5c 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -22,9 +22,9 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *scorer="CJK";
 	char *counter="SCORE";
 	while(arg){
-		if(strcasecmp(arg->key, "WITH")==0){
+		if(strcasecmp(arg->key, "WITH")==0 && arg->ptr){
 			scorer=arg->ptr;
-		}else if(strcasecmp(arg->key, "AS")==0){
+		}else if(strcasecmp(arg->key, "AS")==0 && arg->ptr){
 			counter=arg->ptr;
 		}else{
 			return EINVAL;
diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 10da283..6e8bf29 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -23,9 +23,9 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *after="010A";
 	char *before=NULL;
 	while(arg){
-		if(strcasecmp(arg->key, "FOR")==0){
+		if(strcasecmp(arg->key, "FOR")==0 && arg->ptr){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->min_len=i;
 		}else if(strcasecmp(arg->key, "AFTER")==0){
 			after=arg->ptr;
diff --git a/modules/to/ESCAPE.c b/modules/to/ESCAPE.c
index ab6b147..cb7469d 100644
--- a/modules/to/ESCAPE.c
+++ b/modules/to/ESCAPE.c
@@ -39,7 +39,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				return e;
 			}
 		}else if(strcasecmp(arg->key, "MODE")==0){
-			if(strcasecmp(arg->ptr, "HEX")==0 || strcasecmp(arg->ptr, "16")==0){
+			if(!arg->ptr){
+				free(r->prefix.data);
+				free(r->suffix.data);
+				free(r);
+				return EINVAL;
+			}else if(strcasecmp(arg->ptr, "HEX")==0 || strcasecmp(arg->ptr, "16")==0){
 				r->mode=16;
 			}else if(strcasecmp(arg->ptr, "DEC")==0 || strcasecmp(arg->ptr, "10")==0){
 				r->mode=10;
@@ -52,7 +57,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				return EINVAL;
 			}
 		}else if(strcasecmp(arg->key, "FOR")==0){
-			if(strcasecmp(arg->ptr, "UNICODE")==0 || strcasecmp(arg->ptr, "1")==0 || strcasecmp(arg->ptr, "01")==0){
+			if(!arg->ptr){
+				free(r->prefix.data);
+				free(r->suffix.data);
+				free(r);
+				return EINVAL;
+			}else if(strcasecmp(arg->ptr, "UNICODE")==0 || strcasecmp(arg->ptr, "1")==0 || strcasecmp(arg->ptr, "01")==0){
 				r->filter=1;
 			}else if(strcasecmp(arg->ptr, "BYTE")==0 || strcasecmp(arg->ptr, "3")==0 || strcasecmp(arg->ptr, "03")==0){
 				r->filter=3;
-- 
2.43.0


From 68454447c16c1e7959340bb2a1e961eedc5ccaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 35/90] fix: stages rejecting their arguments leak

---
 modules/inter/INSERT.c     | 1 +
 modules/inter/SCORE.c      | 1 +
 modules/inter/STRINGS.c    | 2 ++
 modules/inter/TRIM-WIDTH.c | 5 ++++-
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/inter/INSERT.c b/modules/inter/INSERT.c
index 6149aa2..04b08af 100644
--- a/modules/inter/INSERT.c
+++ b/modules/inter/INSERT.c
@@ -21,6 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}else if(strcasecmp(arg->key, "BEFORE")==0){
 			before=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 99c1e5c..bde3916 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -27,6 +27,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}else if(strcasecmp(arg->key, "AS")==0 && arg->ptr){
 			counter=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 6e8bf29..fe05526 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -47,6 +47,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	if(after){
 		r->after=str2data(after, &i, ins);
 		if(i){
+			unload_filter(r->filter);
 			if(r->after)
 				DATA_FREE(ins, r->after);
 			free(r);
@@ -61,6 +62,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				DATA_FREE(ins, r->after);
 			if(r->before)
 				DATA_FREE(ins, r->before);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 0b7dc8b..2912397 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -29,13 +29,16 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 			r->width=i;
 			width_set=1;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
 	}
 
-	if(width_set==0)
+	if(width_set==0){
+		free(r);
 		return EINVAL;
+	}
 
 	r->ins=bsdconv_create("WIDTH");
 	r->full=bsdconv_counter(r->ins, "FULL");
-- 
2.43.0


From af4254cb00ba653a599c37fd22a08010b3ad7764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 36/90] fix: modules using a file named by the environment
 crash without it

---
 modules/from/BSDCONV-LOG.c  |  8 +++++++-
 modules/inter/SCORE-TRAIN.c | 12 +++++++++---
 modules/inter/SCORE.c       |  8 ++++----
 modules/to/BSDCONV-LOG.c    |  8 +++++++-
 4 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/modules/from/BSDCONV-LOG.c b/modules/from/BSDCONV-LOG.c
index 1483bf8..67a4e63 100644
--- a/modules/from/BSDCONV-LOG.c
+++ b/modules/from/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,7 +6,12 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_FROM_LOG"),"a");
+	char *p=getenv("BSDCONV_FROM_LOG");
+	if(p==NULL)
+		return EINVAL;
+	THIS_CODEC(ins)->priv=fopen(p,"a");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return EINVAL;
 	return 0;
 }
 
diff --git a/modules/inter/SCORE-TRAIN.c b/modules/inter/SCORE-TRAIN.c
index 714501e..200b5b5 100644
--- a/modules/inter/SCORE-TRAIN.c
+++ b/modules/inter/SCORE-TRAIN.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -15,13 +16,18 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char buf[256]={0};
 	char *p=getenv("BSDCONV_SCORE");
 	if(p==NULL){
-		strcpy(buf,getenv("HOME"));
-		strcat(buf,"/.bsdconv.score");
+		p=getenv("HOME");
+		snprintf(buf, sizeof(buf), "%s/.bsdconv.score", p?p:"");
 		p=buf;
 	}
 	r->bak=fopen(p,"a"); //ensure file existence
-	fclose(r->bak);
+	if(r->bak)
+		fclose(r->bak);
 	r->bak=r->score=fopen(p,"rb+");
+	if(r->score==NULL){
+		free(r);
+		return EINVAL;
+	}
 	r->list=NULL;
 	THIS_CODEC(ins)->priv=r;
 	return 0;
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index bde3916..8467e99 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -37,8 +37,8 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		char *p=getenv("BSDCONV_SCORE");
 		if(p==NULL){
 			//try default score file
-			strcpy(buf,getenv("HOME"));
-			strcat(buf,"/.bsdconv.score");
+			p=getenv("HOME");
+			snprintf(buf, sizeof(buf), "%s/.bsdconv.score", p?p:"");
 			p=buf;
 		}
 		r->bak=r->score=fopen(p,"rb+");
@@ -97,8 +97,8 @@ void cbconv(struct bsdconv_instance *ins){
 			ucs|=data[i];
 		}
 		fseek(fp, ucs*sizeof(unsigned char), SEEK_SET);
-		fread(&v, sizeof(unsigned char), 1, fp);
-		*(r->counter)+=v;
+		if(fread(&v, sizeof(unsigned char), 1, fp)==1)
+			*(r->counter)+=v;
 	}
 
 	this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
diff --git a/modules/to/BSDCONV-LOG.c b/modules/to/BSDCONV-LOG.c
index 533e5ec..df0aa83 100644
--- a/modules/to/BSDCONV-LOG.c
+++ b/modules/to/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,7 +6,12 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_TO_LOG"),"a");
+	char *p=getenv("BSDCONV_TO_LOG");
+	if(p==NULL)
+		return EINVAL;
+	THIS_CODEC(ins)->priv=fopen(p,"a");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return EINVAL;
 	return 0;
 }
 
-- 
2.43.0


From 66fec86d3f0e1f6132dfd2475f2b1cb7d1e03e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 37/90] fix: REPLACE crashes without an argument and with
 several

---
 modules/inter/REPLACE.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index ebd0b64..6e610bb 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -16,6 +16,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		DATA_FREE(ins, r->from);
 		DATA_FREE(ins, r->to);
+		r->to=NULL;
 		r->from=str2data(arg->key, &e, ins);
 		if(e){
 			free(r);
@@ -35,6 +36,10 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}
 		arg=arg->next;
 	}
+	if(r->from==NULL){
+		free(r);
+		return EINVAL;
+	}
 	THIS_CODEC(ins)->priv=r;
 	return 0;
 }
-- 
2.43.0


From 06fa32e5001cf7e129ef972bb0d2c27fa77ee5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 38/90] fix: AMBIGUOUS-UNPAD drops what is not Unicode and
 characters that are not padding

---
 modules/inter/AMBIGUOUS-UNPAD.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index 1114ee5..192eee5 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;
 
 	if(this_phase->curr->len>1 && data[0]==0x1){
-		if(r->s==1 && data[1]==0xA0){
+		if(r->s==1 && this_phase->curr->len==2 && data[1]==0xA0){
 			r->s=0;
 			return;
 		}else{
@@ -69,16 +69,14 @@ void cbconv(struct bsdconv_instance *ins){
 						break;
 					}
 			}
-			if(pad && r->dopad){
-				r->s=1;
-			}
+			r->s=(pad && r->dopad);
 		}
-		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
-		this_phase->data_tail=this_phase->data_tail->next;
-		this_phase->data_tail->next=NULL;
 	}else{
 		r->s=0;
 	}
+	this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
 
 	return;
 }
-- 
2.43.0


From f14be404a225e8845fc514daa06b127d2eee13e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 39/90] fix: BIG5-DEFRAG loses a pending lead byte and leaks

---
 modules/inter/BIG5-DEFRAG.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/modules/inter/BIG5-DEFRAG.c b/modules/inter/BIG5-DEFRAG.c
index 90c4454..1f6a4c7 100644
--- a/modules/inter/BIG5-DEFRAG.c
+++ b/modules/inter/BIG5-DEFRAG.c
@@ -8,12 +8,16 @@ struct my_s{
 };
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	r->p=NULL;
+	r->q=NULL;
 	return 0;
 }
 
 void cbinit(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	DATA_FREE(ins, r->p);
+	DATA_FREE(ins, r->q);
 	r->p=NULL;
 	r->q=NULL;
 	r->r=&(r->q);
@@ -21,9 +25,27 @@ void cbinit(struct bsdconv_instance *ins){
 }
 
 void cbdestroy(struct bsdconv_instance *ins){
+	cbinit(ins);
 	free(THIS_CODEC(ins)->priv);
 }
 
+void cbflush(struct bsdconv_instance *ins){
+	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct my_s *r=THIS_CODEC(ins)->priv;
+
+	if(r->p){
+		this_phase->data_tail->next=r->p;
+		r->p->next=r->q;
+		while(this_phase->data_tail->next){
+			this_phase->data_tail=this_phase->data_tail->next;
+		}
+	}
+	r->p=r->q=NULL;
+	r->r=&(r->q);
+	r->f=0;
+	this_phase->state.status=NEXTPHASE;
+}
+
 void cbconv(struct bsdconv_instance *ins){
 	unsigned char *data;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
@@ -31,13 +53,13 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	if(r->f==0){
-		if(data[0]==0x3 && data[1]>0x7f){
+		if(this_phase->curr->len==2 && data[0]==0x3 && data[1]>0x7f){
 			r->f=1;
 			r->p=dup_data_rt(ins, this_phase->curr);
+			r->p->next=NULL;
 			this_phase->state.status=SUBMATCH;
 			return;
 		}else{
-			DATA_MALLOC(ins, this_phase->data_tail->next);
 			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
@@ -61,9 +83,9 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 			this_phase->data_tail=this_phase->data_tail->next;
 
+			this_phase->data_tail->next=NULL;
 			if(r->q){
 				this_phase->data_tail->next=r->q;
-				*(r->r)=NULL;
 				while(this_phase->data_tail->next){
 					this_phase->data_tail=this_phase->data_tail->next;
 				}
-- 
2.43.0


From 1184976ee098a6fe3ded25f1135aa8077c4cf95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 40/90] fix: case-insensitive table entries do not match the
 lower case of their capital letters

---
 src/bsdconv-mktable.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 6ad1cc3..81b22c1 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -178,9 +178,9 @@ int main(int argc, char *argv[]){
 	}
 
 	/* case insensitive table */
-	for(i=0;i<=26;++i){
+	for(i=0;i<26;++i){
 		ci_table['A'+i]='a'+i;
-		ci_table['a']='A'+i;
+		ci_table['a'+i]='A'+i;
 	}
 
 	if(argc!=3){
@@ -282,7 +282,7 @@ int main(int argc, char *argv[]){
 				for(c=0;c<=256;++c){
 					if(c>=todo_item->lower_bound && c<=todo_item->upper_bound){
 						level=1;
-					}else if(case_insensitive && ci_table[c] && ci_table[c]>=todo_item->lower_bound && ci_table[c]<=todo_item->upper_bound){
+					}else if(case_insensitive && c<256 && ci_table[c] && ci_table[c]>=todo_item->lower_bound && ci_table[c]<=todo_item->upper_bound){
 						level=0;
 					}else{
 						continue;
@@ -359,7 +359,7 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 			for(c=0;c<=256;++c){
 				if(c>=todo_item->lower_bound && c<=todo_item->upper_bound){
 					level=1;
-				}else if(case_insensitive && ci_table[c] && ci_table[c]>=todo_item->lower_bound && ci_table[c]<=todo_item->upper_bound){
+				}else if(case_insensitive && c<256 && ci_table[c] && ci_table[c]>=todo_item->lower_bound && ci_table[c]<=todo_item->upper_bound){
 					level=0;
 				}else{
 					continue;
-- 
2.43.0


From 37dafbeb92b472dff7c1c36e80008cda5b11a039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 41/90] fix: replacing the result of a table entry makes the
 longer entries unreachable

---
 src/bsdconv-mktable.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 81b22c1..ded68c1 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -410,7 +410,10 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 							todo_item->state->base[c]=state_t;
 						}else{
 							DPRINTF("%p %d -> MATCH for %s\n", todo_item->state->base[c], todo_item->state->base[c]->status, ot);
-							todo_item->state->base[c]->status=MATCH;
+							if(todo_item->state->base[c]->status==SUBMATCH_SUBROUTINE)
+								todo_item->state->base[c]->status=SUBMATCH;
+							else if(todo_item->state->base[c]->status!=SUBMATCH)
+								todo_item->state->base[c]->status=MATCH;
 						}
 					}
 				}else if(callback){
-- 
2.43.0


From f3f5d4248f359e3c5feabe6bcf373e6e59a41c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 42/90] fix: what a stage with its own flush took is examined
 again by the other codecs of its phase

---
 src/libbsdconv.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 9ee9c39..3a288ed 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -777,12 +777,11 @@ void bsdconv(struct bsdconv_instance *ins){
 						if(this_phase->flags & F_MATCH){
 							if(this_phase->match_data){
 								LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
-
-								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
-								this_phase->curr=prev_phase->data_head;
 							}else if(this_codec->cbflush){
 								this_codec->cbflush(ins);
 							}
+							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+							this_phase->curr=prev_phase->data_head;
 
 							this_phase->flags &= ~F_MATCH;
 							RESET(ins->phase_index);
@@ -914,6 +913,9 @@ void bsdconv(struct bsdconv_instance *ins){
 								this_phase->curr=prev_phase->data_head;
 							}else if(this_codec->cbflush){
 								this_codec->cbflush(ins);
+							}else{
+								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+								this_phase->curr=prev_phase->data_head;
 							}
 
 							this_phase->flags &= ~F_MATCH;
@@ -1025,7 +1027,11 @@ void bsdconv(struct bsdconv_instance *ins){
 					this_codec->cbinit(ins);
 				switch(this_phase->type){
 					case FROM:	goto from_deadend;
-					case INTER:	goto inter_deadend;
+					case INTER:
+						/* a codec with its own flush has taken everything up to here */
+						if(this_codec->cbflush && !this_phase->match_data)
+							this_phase->bak=NULL;
+						goto inter_deadend;
 					case TO:	goto to_deadend;
 				}
 			}
-- 
2.43.0


From 7ebba31a16a513080df287b9671376929dcfbe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 43/90] fix: ASCII-HTML-INFO writes past its buffer for a CNS
 11643 plane over 7F

---
 modules/to/ASCII-HTML-INFO.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/to/ASCII-HTML-INFO.c b/modules/to/ASCII-HTML-INFO.c
index ef3ade9..ee3bde7 100644
--- a/modules/to/ASCII-HTML-INFO.c
+++ b/modules/to/ASCII-HTML-INFO.c
@@ -93,7 +93,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"<a href=\"http://www.cns11643.gov.tw/AIDB/query_general_view.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X",(unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
@@ -105,7 +105,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"\"><img src=\"http://www.cns11643.gov.tw/AIDB/png.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X",(unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
-- 
2.43.0


From 93dbb745f18b2cd53367542503c3e7bebb99fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 44/90] fix: UTF-16 and UTF-32 encoders take what is no code
 point, UTF-32 writing past its buffer

---
 modules/to/UTF-16BE.c | 4 ++++
 modules/to/UTF-16LE.c | 4 ++++
 modules/to/UTF-32BE.c | 5 +++++
 modules/to/UTF-32LE.c | 5 +++++
 4 files changed, 18 insertions(+)

diff --git a/modules/to/UTF-16BE.c b/modules/to/UTF-16BE.c
index 8722088..bc893a9 100644
--- a/modules/to/UTF-16BE.c
+++ b/modules/to/UTF-16BE.c
@@ -11,6 +11,10 @@ void cbconv(struct bsdconv_instance *ins){
 
 	data+=1;
 	if(this_phase->curr->len > 3){
+		if(this_phase->curr->len > 4 || UCP(data)[0] < 0x01 || UCP(data)[0] > 0x10){
+			this_phase->state.status=DEADEND;
+			return;
+		}
 		this_phase->state.status=NEXTPHASE;
 
 		DATA_MALLOC(ins, this_phase->data_tail->next);
diff --git a/modules/to/UTF-16LE.c b/modules/to/UTF-16LE.c
index 09f3e17..67b8695 100644
--- a/modules/to/UTF-16LE.c
+++ b/modules/to/UTF-16LE.c
@@ -13,6 +13,10 @@ void cbconv(struct bsdconv_instance *ins){
 
 	data+=1;
 	if(this_phase->curr->len > 3){
+		if(this_phase->curr->len > 4 || UCP(data)[0] < 0x01 || UCP(data)[0] > 0x10){
+			this_phase->state.status=DEADEND;
+			return;
+		}
 		this_phase->state.status=NEXTPHASE;
 
 		DATA_MALLOC(ins, this_phase->data_tail->next);
diff --git a/modules/to/UTF-32BE.c b/modules/to/UTF-32BE.c
index 200a14d..f213b1d 100644
--- a/modules/to/UTF-32BE.c
+++ b/modules/to/UTF-32BE.c
@@ -9,6 +9,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
 
+	if(this_phase->curr->len > 5){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
 	len=this_phase->curr->len-1;
diff --git a/modules/to/UTF-32LE.c b/modules/to/UTF-32LE.c
index ab058ba..b894fac 100644
--- a/modules/to/UTF-32LE.c
+++ b/modules/to/UTF-32LE.c
@@ -11,6 +11,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
 
+	if(this_phase->curr->len > 5){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
 	len=this_phase->curr->len-1;
-- 
2.43.0


From 1b211e642e0c58d88cb199c137d6ec611503ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 45/90] fix: GB18030 and ASCII-HTML-UNICODE-IMG write past
 their buffers for what is longer than a code point

---
 modules/to/ASCII-HTML-UNICODE-IMG.c | 2 +-
 modules/to/_GB18030.c               | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/to/ASCII-HTML-UNICODE-IMG.c b/modules/to/ASCII-HTML-UNICODE-IMG.c
index 66751d8..b9ab625 100644
--- a/modules/to/ASCII-HTML-UNICODE-IMG.c
+++ b/modules/to/ASCII-HTML-UNICODE-IMG.c
@@ -10,7 +10,7 @@ void cbconv(struct bsdconv_instance *ins){
 	unsigned int len, i;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
-	if(*data!=0x01){
+	if(*data!=0x01 || this_phase->curr->len > 5){
 		this_phase->state.status=DEADEND;
 		return;
 	}
diff --git a/modules/to/_GB18030.c b/modules/to/_GB18030.c
index 457d69b..da256ac 100644
--- a/modules/to/_GB18030.c
+++ b/modules/to/_GB18030.c
@@ -42,6 +42,11 @@ void cbconv(struct bsdconv_instance *ins){
 	data+=1;
 	len=this_phase->curr->len-1;
 
+	if(len > 4){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	codepoint.num=0;
 	for(i=0;(len-i)>0;++i){
 		codepoint.byte[3-i]=data[len-i-1];
-- 
2.43.0


From 58becb86ef60f2fc6229b7165ecd2f421b1bf3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 46/90] fix: WHITESPACE-RERAIL before WHITESPACE-DERAIL does
 not terminate

---
 modules/inter/WHITESPACE-DERAIL.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/inter/WHITESPACE-DERAIL.c b/modules/inter/WHITESPACE-DERAIL.c
index e62cffa..bd7be86 100644
--- a/modules/inter/WHITESPACE-DERAIL.c
+++ b/modules/inter/WHITESPACE-DERAIL.c
@@ -70,7 +70,7 @@ void cbconv(struct bsdconv_instance *ins){
 			((struct data_rt *)q->data)->next=NULL;
 			q->len=t->offsetA;
 
-			if(t->rerail){
+			if(t->rerail > this_phase){
 				t->rerail->flags |= (F_MATCH | F_PENDING);
 				t->rerail->match_data = NULL;
 			}
-- 
2.43.0


From fe63708cc982aaf9760144d125d5b423a51d0513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 47/90] fix: WHITESPACE-RERAIL loses white space when a stage
 in between shortens the text

---
 modules/inter/WHITESPACE-RERAIL.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modules/inter/WHITESPACE-RERAIL.c b/modules/inter/WHITESPACE-RERAIL.c
index 2880b18..3c8d247 100644
--- a/modules/inter/WHITESPACE-RERAIL.c
+++ b/modules/inter/WHITESPACE-RERAIL.c
@@ -98,12 +98,9 @@ void cbconv(struct bsdconv_instance *ins){
 		t->queue=q;
 	}
 
-	if(t->queue){
-		this_phase->flags |= (F_MATCH | F_PENDING);
-	}else{
-		this_phase->flags &= ~(F_MATCH | F_PENDING);
-	}
-	this_phase->match_data=NULL;
+	/* the rest of the queue is put out by cbflush() when nothing more comes */
+	if(t->queue)
+		this_phase->state.status=SUBMATCH;
 
 	return;
 }
-- 
2.43.0


From 76ea677dde888797c32df966d42d5caf71174a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 48/90] fix: after an input error the bytes of earlier buffers
 are lost or later ones are skipped

---
 src/libbsdconv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 3a288ed..415baf3 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -684,7 +684,12 @@ void bsdconv(struct bsdconv_instance *ins){
 									RESET(ins->phase_index);
 									this_codec=THIS_CODEC(ins);
 
-									this_phase->bak=this_phase->curr;
+									/* drop the first byte that is not consumed, which may be in an earlier buffer */
+									this_phase->bak=prev_phase->data_head->next;
+									while(this_phase->bak && this_phase->bak->len<=this_phase->data_head->len){
+										this_phase->bak=this_phase->bak->next;
+										this_phase->data_head->len=0;
+									}
 									LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 									this_phase->bak=this_phase->curr=prev_phase->data_head;
 									this_phase->i=this_phase->data_head->len=this_phase->data_head->len+1;
-- 
2.43.0


From b6739cff05c6d33b4598d55dc567cf60ad2c7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 49/90] fix: GB18030 decoder does not find the four-byte
 sequences of its table

---
 modules/from/_GB18030.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index 5ad6a57..1ee6492 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -69,7 +69,12 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	ucs_t ucs;
 
-	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
+	/* begin of a unit; the table may have completed the previous one */
+	if(!(this_phase->flags & F_LOOPBACK))
+		t->status=0;
+
+	/* one byte a time, as the table has the first choice for each */
+	{
 		d=UCP(this_phase->curr->data)[this_phase->i];
 		memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 		c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
-- 
2.43.0


From a912e2971854cbb07b1ed91444f83f1ec6a41e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 50/90] fix: an encoder dropping an unfinished sequence drops
 all its characters and counts one error

---
 src/libbsdconv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 415baf3..cd3c79b 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -941,7 +941,11 @@ void bsdconv(struct bsdconv_instance *ins){
 							RESET(ins->phase_index);
 							this_codec=THIS_CODEC(ins);
 
-							this_phase->bak=this_phase->curr->next;
+							/* drop the first cell (and the empty ones before it), what was looked at after it may be convertible */
+							this_phase->bak=prev_phase->data_head->next;
+							while(this_phase->bak!=this_phase->curr && this_phase->bak->len==0)
+								this_phase->bak=this_phase->bak->next;
+							this_phase->bak=this_phase->bak->next;
 							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 							this_phase->bak=this_phase->curr=prev_phase->data_head;
 
-- 
2.43.0


From 57afdba7457458fd4b813b1797e468e4f96b7d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 51/90] fix: GB18030 decoder reads four-byte sequences led by
 D9 as if led by D0

---
 modules/from/_GB18030.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/_GB18030.txt b/modules/from/_GB18030.txt
index 41077d3..7ad0866 100644
--- a/modules/from/_GB18030.txt
+++ b/modules/from/_GB18030.txt
@@ -23628,7 +23628,7 @@ D8FB	014F67
 D8FC	016538
 D8FD	014F5A
 D8FE	014F5D
-D9*	?D0
+D9*	?D9
 D940	018CAE
 D941	018CAF
 D942	018CB0
-- 
2.43.0


From f0996b1848e9a45fb15a88befead278bf116561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 52/90] =?UTF-8?q?fix:=20IBM-37=20decodes=20=C3=90=20and=20?=
 =?UTF-8?q?=C2=AF=20as=20look-alikes=20its=20encoder=20maps=20to=20the=20s?=
 =?UTF-8?q?ame=20bytes?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 modules/from/IBM-37.txt | 2 --
 1 file changed, 2 deletions(-)

diff --git a/modules/from/IBM-37.txt b/modules/from/IBM-37.txt
index f6be67c..09e483c 100644
--- a/modules/from/IBM-37.txt
+++ b/modules/from/IBM-37.txt
@@ -222,7 +222,6 @@ A9	017A
 A9	01FF5A
 AA	01A1
 AB	01BF
-AC	010110
 AC	01D0
 AD	01DD
 AE	01DE
@@ -242,7 +241,6 @@ BA	015B
 BA	01FF3B
 BB	015D
 BB	01FF3D
-BC	01203E
 BC	01AF
 BD	01A8
 BE	01B4
-- 
2.43.0


From 622971849270bceb3a7a560aedc1178e38b546cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 53/90] fix: GB18030 decoder takes bytes out of range in
 four-byte sequences

---
 modules/from/_GB18030.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index 1ee6492..7a50edc 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -96,6 +96,8 @@ void cbconv(struct bsdconv_instance *ins){
 					t->status=2;
 					goto next;
 				}
+				if(d<0x30 || d>0x39)
+					DEADEND();
 				t->ucs+=d;
 				t->ucs*=126;
 				t->status=2;
@@ -107,6 +109,8 @@ void cbconv(struct bsdconv_instance *ins){
 					t->status=3;
 					goto next;
 				}
+				if(d<0x81 || d>0xfe)
+					DEADEND();
 				t->ucs+=d;
 				t->ucs*=10;
 				t->status=3;
@@ -117,6 +121,8 @@ void cbconv(struct bsdconv_instance *ins){
 					t->status=0;
 					goto next;
 				}
+				if(d<0x30 || d>0x39)
+					DEADEND();
 				t->ucs+=d;
 				t->status=0;
 				if (t->ucs < gb18030_table[0].beg || t->ucs > gb18030_table[max].end){
-- 
2.43.0


From 0c3d9412a27a370b963425e5c88de4065c2ccd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 54/90] fix: GB18030 decoder does not know the four-byte
 sequences 82359030 to 8239FE39

---
 modules/from/_GB18030.txt | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/from/_GB18030.txt b/modules/from/_GB18030.txt
index 7ad0866..90c5315 100644
--- a/modules/from/_GB18030.txt
+++ b/modules/from/_GB18030.txt
@@ -6406,11 +6406,15 @@
 82358E37	014DFA
 82358E38	014DFB
 82358E39	014DFC
+8235*		?8235
 82358F*		?82358F
 82358F30	014DFD
 82358F31	014DFE
 82358F32	014DFF
 8236*		?8236
+8237*		?8237
+8238*		?8238
+8239*		?8239
 8240	014FA4
 8241	014FAB
 8242	014FAD
-- 
2.43.0


From e1cc5ac44a742e930af68d2bd4e1c92e3c3f7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 55/90] fix: a subroutine is forgotten when a cell begins like
 a listed shorter one

---
 src/libbsdconv.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index cd3c79b..c506525 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -615,6 +615,7 @@ void bsdconv(struct bsdconv_instance *ins){
 	FILE *fp;
 	int fd;
 	unsigned char c;
+	offset_t loopback;
 	struct bsdconv_phase *prev_phase;
 	struct bsdconv_phase *this_phase;
 	struct bsdconv_codec *this_codec;
@@ -752,12 +753,16 @@ void bsdconv(struct bsdconv_instance *ins){
 			while(this_phase->curr->next){
 				this_phase->curr=this_phase->curr->next;
 				this_phase->state.status=NOMATCH;
+				loopback=this_phase->offset;
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
 					if(next){
 						this_phase->offset = next;
-					}else if(!(this_phase->flags & F_LOOPBACK)){
+					}else if(this_phase->flags & F_LOOPBACK){
+						/* back to the subroutine, whatever was matched since */
+						this_phase->offset=loopback;
+					}else{
 						this_phase->offset=0;
 					}
 					this_phase->state=read_state(this_codec, this_phase->offset);
@@ -768,6 +773,7 @@ void bsdconv(struct bsdconv_instance *ins){
 						case SUBROUTINE:
 						case SUBMATCH_SUBROUTINE:
 							this_phase->flags |= F_LOOPBACK;
+							loopback=this_phase->offset;
 							break;
 					}
 				}
@@ -884,12 +890,16 @@ void bsdconv(struct bsdconv_instance *ins){
 			while(this_phase->curr->next){
 				this_phase->curr=this_phase->curr->next;
 				this_phase->state.status=NOMATCH;
+				loopback=this_phase->offset;
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
 					if(next){
 						this_phase->offset = next;
-					}else if(!(this_phase->flags & F_LOOPBACK)){
+					}else if(this_phase->flags & F_LOOPBACK){
+						/* back to the subroutine, whatever was matched since */
+						this_phase->offset=loopback;
+					}else{
 						this_phase->offset=0;
 					}
 					this_phase->state=read_state(this_codec, this_phase->offset);
@@ -900,6 +910,7 @@ void bsdconv(struct bsdconv_instance *ins){
 						case SUBROUTINE:
 						case SUBMATCH_SUBROUTINE:
 							this_phase->flags |= F_LOOPBACK;
+							loopback=this_phase->offset;
 							break;
 					}
 				}
-- 
2.43.0


From ddb039d96391986b7ba7d9567d9a126d5b803323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 56/90] fix: GB18030 encoder does not convert most characters
 that need its formula

---
 modules/to/_GB18030.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/to/_GB18030.txt b/modules/to/_GB18030.txt
index 7d7001b..3f8c556 100644
--- a/modules/to/_GB18030.txt
+++ b/modules/to/_GB18030.txt
@@ -1,4 +1,5 @@
 01*	?
+01**	?
 010100	81308B38
 010101	A8A1
 010102	81308B39
-- 
2.43.0


From cc1b0db26bc453e874ab40c361784af42a2a2bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 57/90] fix: EBCDIC encoders convert characters they do not
 have to unrelated ones

---
 modules/to/EBCDIC.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index 8de5847..29b078b 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -45,6 +45,21 @@ void cbdestroy(struct bsdconv_instance *ins){
 	free(r);
 }
 
+/* a cell that only begins like a listed one gets here as well */
+static int listed(struct bsdconv_codec *codec, struct data_rt *cell){
+	struct state_rt state=read_state(codec, 0);
+	offset_t offset;
+	size_t i;
+
+	for(i=0;i<cell->len;++i){
+		offset=get_offset(codec, &state, UCP(cell->data)[i]);
+		if(!offset)
+			return 0;
+		state=read_state(codec, offset);
+	}
+	return 1;
+}
+
 void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct bsdconv_phase *prev_phase=&ins->phase[ins->phase_index-1];
@@ -52,6 +67,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct data_st data;
 	struct data_rt *data_ptr;
 
+	if(!listed(THIS_CODEC(ins), this_phase->curr)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 
 	if(data.len>1 && t->status==0){
-- 
2.43.0


From 187bf5d08707e4f1e263e27d0e5188fd18edc3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 58/90] fix: ZH-BONUS replaces characters that are not in its
 table by others that are

---
 modules/inter/BONUS.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/modules/inter/BONUS.c b/modules/inter/BONUS.c
index b307c64..550352a 100644
--- a/modules/inter/BONUS.c
+++ b/modules/inter/BONUS.c
@@ -6,12 +6,40 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+/* cells of which the last only begins like the listed one get here as well */
+static int listed(struct bsdconv_codec *codec, struct data_rt *cell, struct data_rt *last){
+	struct state_rt state=read_state(codec, 0);
+	offset_t offset;
+	size_t i;
+
+	for(;;cell=cell->next){
+		for(i=0;i<cell->len;++i){
+			offset=get_offset(codec, &state, UCP(cell->data)[i]);
+			if(!offset)
+				return 0;
+			state=read_state(codec, offset);
+		}
+		if(cell==last)
+			return 1;
+		offset=get_offset(codec, &state, 256);
+		if(!offset)
+			return 0;
+		state=read_state(codec, offset);
+	}
+}
+
 void cbconv(struct bsdconv_instance *ins){
 	struct data_rt *data_ptr;
 	bsdconv_counter_t *counter=THIS_CODEC(ins)->priv;
 	unsigned char *data;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct data_st data_st;
+
+	if(!listed(THIS_CODEC(ins), PREV_PHASE(ins)->data_head->next, this_phase->curr)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data_st, (char *)((this_phase->codec[this_phase->index].data_z)+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 	data=UCP((THIS_CODEC(ins)->data_z)+(uintptr_t)de_offset(data_st.data));
 
-- 
2.43.0


From a087d06b430776db7039805458438bd8084e2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 59/90] fix: CP1253, CP874 and GB2312 encoders miss their
 characters under U+0100

---
 modules/to/_CP1253.txt | 42 +++++++++++++++++++++---------------------
 modules/to/_CP874.txt  |  2 +-
 modules/to/_GB2312.txt | 38 +++++++++++++++++++-------------------
 3 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/modules/to/_CP1253.txt b/modules/to/_CP1253.txt
index b776acd..bd0407f 100644
--- a/modules/to/_CP1253.txt
+++ b/modules/to/_CP1253.txt
@@ -17,35 +17,35 @@
 012014	97
 012122	99
 01203A	9B
-0100A0	A0
+01A0	A0
 010385	A1
 010386	A2
-0100A3	A3
-0100A4	A4
-0100A5	A5
-0100A6	A6
-0100A7	A7
-0100A8	A8
-0100A9	A9
-0100AB	AB
-0100AC	AC
-0100AD	AD
-0100AE	AE
+01A3	A3
+01A4	A4
+01A5	A5
+01A6	A6
+01A7	A7
+01A8	A8
+01A9	A9
+01AB	AB
+01AC	AC
+01AD	AD
+01AE	AE
 012015	AF
-0100B0	B0
-0100B1	B1
-0100B2	B2
-0100B3	B3
+01B0	B0
+01B1	B1
+01B2	B2
+01B3	B3
 010384	B4
-0100B5	B5
-0100B6	B6
-0100B7	B7
+01B5	B5
+01B6	B6
+01B7	B7
 010388	B8
 010389	B9
 01038A	BA
-0100BB	BB
+01BB	BB
 01038C	BC
-0100BD	BD
+01BD	BD
 01038E	BE
 01038F	BF
 010390	C0
diff --git a/modules/to/_CP874.txt b/modules/to/_CP874.txt
index be22c7a..addafe8 100644
--- a/modules/to/_CP874.txt
+++ b/modules/to/_CP874.txt
@@ -8,7 +8,7 @@
 012022	95
 012013	96
 012014	97
-0100A0	A0
+01A0	A0
 010E01	A1
 010E02	A2
 010E03	A3
diff --git a/modules/to/_GB2312.txt b/modules/to/_GB2312.txt
index 00fab10..37e995f 100644
--- a/modules/to/_GB2312.txt
+++ b/modules/to/_GB2312.txt
@@ -5,7 +5,7 @@ source:	#data
 0130FB	2124
 0102C9	2125
 0102C7	2126
-0100A8	2127
+01A8	2127
 013003	2128
 013005	2129
 012015	212A
@@ -30,9 +30,9 @@ source:	#data
 013017	213D
 013010	213E
 013011	213F
-0100B1	2140
-0100D7	2141
-0100F7	2142
+01B1	2140
+01D7	2141
+01F7	2142
 012236	2143
 012227	2144
 012228	2145
@@ -65,16 +65,16 @@ source:	#data
 012234	2160
 012642	2161
 012640	2162
-0100B0	2163
+01B0	2163
 012032	2164
 012033	2165
 012103	2166
 01FF04	2167
-0100A4	2168
+01A4	2168
 01FFE0	2169
 01FFE1	216A
 012030	216B
-0100A7	216C
+01A7	216C
 012116	216D
 012606	216E
 012605	216F
@@ -543,31 +543,31 @@ source:	#data
 01044E	2770
 01044F	2771
 010101	2821
-0100E1	2822
+01E1	2822
 0101CE	2823
-0100E0	2824
+01E0	2824
 010113	2825
-0100E9	2826
+01E9	2826
 01011B	2827
-0100E8	2828
+01E8	2828
 01012B	2829
-0100ED	282A
+01ED	282A
 0101D0	282B
-0100EC	282C
+01EC	282C
 01014D	282D
-0100F3	282E
+01F3	282E
 0101D2	282F
-0100F2	2830
+01F2	2830
 01016B	2831
-0100FA	2832
+01FA	2832
 0101D4	2833
-0100F9	2834
+01F9	2834
 0101D6	2835
 0101D8	2836
 0101DA	2837
 0101DC	2838
-0100FC	2839
-0100EA	283A
+01FC	2839
+01EA	283A
 013105	2845
 013106	2846
 013107	2847
-- 
2.43.0


From 61446b5d688211ce2e4002c3d1771e8355ee71a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 60/90] fix: CP932 decodes characters under U+0100 to cells
 other stages do not know

---
 modules/from/_CP932.txt | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/modules/from/_CP932.txt b/modules/from/_CP932.txt
index 0669a23..11cc9c1 100644
--- a/modules/from/_CP932.txt
+++ b/modules/from/_CP932.txt
@@ -74,9 +74,9 @@ DF	01FF9F
 8149	01FF01
 814A	01309B
 814B	01309C
-814C	0100B4
+814C	01B4
 814D	01FF40
-814E	0100A8
+814E	01A8
 814F	01FF3E
 8150	01FFE3
 8151	01FF3F
@@ -123,9 +123,9 @@ DF	01FF9F
 817A	013011
 817B	01FF0B
 817C	01FF0D
-817D	0100B1
-817E	0100D7
-8180	0100F7
+817D	01B1
+817E	01D7
+8180	01F7
 8181	01FF1D
 8182	012260
 8183	01FF1C
@@ -136,7 +136,7 @@ DF	01FF9F
 8188	012234
 8189	012642
 818A	012640
-818B	0100B0
+818B	01B0
 818C	012032
 818D	012033
 818E	012103
@@ -149,7 +149,7 @@ DF	01FF9F
 8195	01FF06
 8196	01FF0A
 8197	01FF20
-8198	0100A7
+8198	01A7
 8199	012606
 819A	012605
 819B	0125CB
@@ -207,7 +207,7 @@ DF	01FF9F
 81F4	01266A
 81F5	012020
 81F6	012021
-81F7	0100B6
+81F7	01B6
 81FC	0125EF
 824F	01FF10
 8250	01FF11
-- 
2.43.0


From 56f2fe21ad6dc7b9d8a087800bd4cb089313497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 61/90] fix: CP950-UDA decoder takes trail bytes out of range

---
 modules/from/CP950-UDA.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index e25351c..00d7dff 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -65,13 +65,17 @@ void cbconv(struct bsdconv_instance *ins){
 	}else{
 		uint32_t b = (r->h<<8)|d;
 		if(
-			(b>=0xFA40 && b<=0xFEFE)
-			||
-			(b>=0x8E40 && b<=0xA0FE)
-			||
-			(b>=0x8140 && b<=0x8DFE)
-			||
-			(b>=0xC6A1 && b<=0xC8FE)
+			((d>=0x40 && d<=0x7E) || (d>=0xA1 && d<=0xFE))
+			&&
+			(
+				(b>=0xFA40 && b<=0xFEFE)
+				||
+				(b>=0x8E40 && b<=0xA0FE)
+				||
+				(b>=0x8140 && b<=0x8DFE)
+				||
+				(b>=0xC6A1 && b<=0xC8FE)
+			)
 		){
 			uint32_t u = r->x + (157 * (r->h - r->y)) + (d<0x80?d-0x40:d-0x62);
 			unsigned char *c;
-- 
2.43.0


From 4d2dfc0381b935aeabf45eb0c3afe9dec379c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 62/90] fix: JIS decoder does not know the escape sequence of
 JIS X 0212

---
 modules/from/_JIS.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index f03b371..c5dcf15 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -121,6 +121,10 @@ void cbconv(struct bsdconv_instance *ins){
 				break;
 			case 0x1B24:
 				switch(d){
+					case 0x28:
+						r->state = 0x1B2824;
+						this_phase->state.status = CONTINUE;
+						return;
 					case 0x40:
 						r->state = 0;
 						r->mode = MODE_JIS0208; //1978
-- 
2.43.0


From f3a1846ae515de546383f24f5227860b8fc1756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 63/90] fix: JIS decoder reads seven-bit half-width katakana as
 ASCII

---
 modules/from/_JIS.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index c5dcf15..f411109 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -8,6 +8,7 @@
 enum {
 	MODE_ASCII,
 	MODE_JIS0201,
+	MODE_JIS0201_KANA,
 	MODE_JIS0208,
 	MODE_JIS0212,
 };
@@ -83,6 +84,10 @@ void cbconv(struct bsdconv_instance *ins){
 						case MODE_JIS0201:
 							codec = &r->jis0201;
 							break;
+						case MODE_JIS0201_KANA:
+							codec = &r->jis0201;
+							d |= 0x80;
+							break;
 						case MODE_JIS0208:
 							codec = &r->jis0208;
 							break;
@@ -156,7 +161,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 					case 0x49:
 						r->state = 0;
-						r->mode = MODE_JIS0201;
+						r->mode = MODE_JIS0201_KANA;
 						r->cstate = read_state(&r->jis0201, 0);
 						this_phase->state.status = NEXTPHASE;
 						return;
-- 
2.43.0


From 0aa500603d53b5c6a64c4514b4bf4e38b29d242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 64/90] fix: UTF-8 decoder takes the unit after an unpaired
 surrogate along

With CESU and LOOSE an unpaired lead surrogate and the character after it
were converted together, so that the codecs listed before it were not
asked for the latter.
---
 modules/from/_UTF-8.c | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 372d4ae..d12447c 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -68,11 +68,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 	if(ucs >= 0xD800 && ucs <= 0xDBFF){	\
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
-				if(t->loose){	\
-					PASS(t->lead_surrogate);	\
-				}else{	\
-					DEADEND();	\
-				}	\
+				DEADEND();	\
 			}	\
 			t->lead_surrogate.ucs4 = t->ucs.ucs4;	\
 			t->ucs.ucs4 = 0;	\
@@ -111,12 +107,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 		}	\
 	}else{	\
 		if(t->lead_surrogate.ucs4){	\
-			if(t->loose){	\
-				PASS(t->lead_surrogate);	\
-				t->lead_surrogate.ucs4 = 0;	\
-			}else{	\
-				DEADEND();	\
-			}	\
+			DEADEND();	\
 		}	\
 		PASS(t->ucs);	\
 		t->ucs.ucs4 = 0;	\
-- 
2.43.0


From 4de0d582e2afb25539028546a640c3ab23700fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 65/90] fix: JIS decoder loses half a character before an
 escape sequence

The first byte of a pair followed by an escape sequence was dropped
without being reported.
---
 modules/from/_JIS.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index f411109..bc025ec 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -73,9 +73,12 @@ void cbconv(struct bsdconv_instance *ins){
 		case 0:
 			switch(d){
 				case 0x1B:
-					r->state = 0x1B;
-					this_phase->state.status = CONTINUE;
-					return;
+					if(!(this_phase->flags & F_PENDING)){
+						r->state = 0x1B;
+						this_phase->state.status = CONTINUE;
+						return;
+					}
+					/* after the first half of a character */
 				default:
 					switch(r->mode){
 						case MODE_ASCII:
-- 
2.43.0


From 19bf5149c5fc0b6feef4033c032a0bf0ba07cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 66/90] fix: packed form keeps the border of a conversion made
 of one phase

---
 src/libbsdconv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index c506525..2358179 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -233,6 +233,7 @@ char *bsdconv_pack(struct bsdconv_instance *ins){
 	const char *end;
 	int len=0;
 	int i, j, n;
+	int open=0; /* inside an alternative which began with a FROM phase */
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			len+=strlen(ins->phase[i].codec[j].desc);
@@ -259,11 +260,17 @@ char *bsdconv_pack(struct bsdconv_instance *ins){
 							strcat(ret, "|");
 							break;
 						case INTER:
+							strcat(ret, open ? ":" : "|");
+							break;
 						case TO:
 							strcat(ret, ":");
 						break;
 					}
 				}
+				if(ins->phase[i].type==FROM)
+					open=1;
+				else if(ins->phase[i].type==TO)
+					open=0;
 			}else{
 				strcat(ret, ",");
 			}
-- 
2.43.0


From 7c61a4d89d45d55eede0406dcd2065b554dc4cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 67/90] fix: escapes without a suffix are too short to be read
 back below U+0100

---
 modules/to/ESCAPE.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/to/ESCAPE.c b/modules/to/ESCAPE.c
index cb7469d..e9f3019 100644
--- a/modules/to/ESCAPE.c
+++ b/modules/to/ESCAPE.c
@@ -92,7 +92,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
-	int i;
+	int i, pad;
 	unsigned int u;
 	char *p;
 
@@ -102,11 +102,14 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
 			this_phase->data_tail->flags=F_FREE;
-			this_phase->data_tail->len=(this_phase->curr->len-1)*2+t->prefix.len + t->suffix.len;
+			/* nothing ends an escape without a suffix: as many digits as it is read back with (\uXXXX) */
+			pad=(t->suffix.len==0 && this_phase->curr->len==2)?2:0;
+			this_phase->data_tail->len=(this_phase->curr->len-1)*2+pad+t->prefix.len + t->suffix.len;
 			this_phase->data_tail->data=malloc(this_phase->data_tail->len+1);
 			memcpy(this_phase->data_tail->data, t->prefix.data, t->prefix.len);
 			p=this_phase->data_tail->data+t->prefix.len;
 
+			if(pad) p+=sprintf(p,"00");
 			for(i=1;i<this_phase->curr->len;++i){
 				p+=sprintf(p,"%02X", UCP(this_phase->curr->data)[i]);
 			}
-- 
2.43.0


From 3ad11b6eb1063980da19dcf0ac1b44c19512d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 68/90] fix: the HTML entity of U+2203 is &exist;

---
 modules/from/ASCII-NAMED-HTML-ENTITY.txt | 1 +
 modules/to/ASCII-NAMED-HTML-ENTITY.txt   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/from/ASCII-NAMED-HTML-ENTITY.txt b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
index cfc6f1c..8bd2472 100644
--- a/modules/from/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
@@ -194,6 +194,7 @@
 !2663726172723B	0121B5
 !26666F72616C6C3B	012200
 !26706172743B	012202
+!2665786973743B	012203
 !266578697374733B	012203
 !26656D7074793B	012205
 !266E61626C613B	012207
diff --git a/modules/to/ASCII-NAMED-HTML-ENTITY.txt b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
index 2207ec3..cf22fd9 100644
--- a/modules/to/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
@@ -194,7 +194,7 @@
 0121B5	2663726172723B
 012200	26666F72616C6C3B
 012202	26706172743B
-012203	266578697374733B
+012203	2665786973743B
 012205	26656D7074793B
 012207	266E61626C613B
 012208	266973696E3B
-- 
2.43.0


From fffc005b9a255d40a010715188040204b1388716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 69/90] fix: PRINT filter passes U+001F

---
 modules/filter/PRINT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/filter/PRINT.c b/modules/filter/PRINT.c
index ccdb054..ff87606 100644
--- a/modules/filter/PRINT.c
+++ b/modules/filter/PRINT.c
@@ -1,7 +1,7 @@
 #include "../../src/bsdconv.h"
 
 static const struct uint32_range ranges[] = {
-	{ 0x1F, 0x7E },
+	{ 0x20, 0x7E },
 };
 
 #include "unicode_range.c"
-- 
2.43.0


From 2299d1abbcc2302a9e4cbc064512cd76c409187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 70/90] fix: command line reports counts of earlier files under
 the name of each later file

---
 src/bsdconv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 74794eb..2ef64fd 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -44,6 +44,7 @@ void list_modules(){
 void bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char *filename){
 	char *ib;
 	bsdconv_init(ins);
+	bsdconv_counter_reset(ins, NULL);
 	do{
 		ib=bsdconv_malloc(IBUFLEN);
 		ins->input.data=ib;
-- 
2.43.0


From abb4fe07695e9a7231a65df124de44514e28a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 71/90] fix: command line replaces the file and reports success
 when reading or writing fails

---
 src/bsdconv.c | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 2ef64fd..1a2d6c9 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -41,7 +41,7 @@ void list_modules(){
 	exit(0);
 }
 
-void bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char *filename){
+int bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char *filename){
 	char *ib;
 	bsdconv_init(ins);
 	bsdconv_counter_reset(ins, NULL);
@@ -71,6 +71,15 @@ void bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char
 		}
 		c=c->next;
 	}
+	if(ferror(in)){
+		fprintf(stderr, "Failed reading %s.\n", filename?filename:"standard input");
+		return -1;
+	}
+	if(fflush(out)!=0 || ferror(out)){
+		fprintf(stderr, "Failed writing output%s%s.\n", filename?" of ":"", filename?filename:"");
+		return -1;
+	}
+	return 0;
 }
 
 int main(int argc, char *argv[]){
@@ -80,6 +89,7 @@ int main(int argc, char *argv[]){
 	struct bsdconv_instance *ins;
 	FILE *inf=NULL, *otf=stdout;
 	int inplace=0;
+	int err=0;
 	int i;
 
 	if(argc<2){
@@ -118,7 +128,7 @@ int main(int argc, char *argv[]){
 	}
 
 	if(i>=argc){
-		bsdconv_file(ins, stdin, stdout, NULL);
+		err=bsdconv_file(ins, stdin, stdout, NULL);
 	}else for(;i<argc;++i){
 		if(inplace){
 			inf=fopen(argv[i],"rb");
@@ -133,12 +143,16 @@ int main(int argc, char *argv[]){
 			if((fd=mkstemp(tmp))==-1){
 				free(tmp);
 				fprintf(stderr, "Failed creating temp file.\n");
+				fclose(inf);
 				bsdconv_destroy(ins);
 				exit(1);
 			}
 			otf=fdopen(fd, "wb");
 			if(!otf){
 				fprintf(stderr, "Unable to open output file for %s\n", argv[i]);
+				close(fd);
+				unlink(tmp);
+				free(tmp);
 				bsdconv_destroy(ins);
 				exit(1);
 			}
@@ -148,11 +162,23 @@ int main(int argc, char *argv[]){
 			fchown(fileno(otf), stat.st_uid, stat.st_gid);
 			fchmod(fileno(otf), stat.st_mode);
 #endif
-			bsdconv_file(ins, inf, otf, argv[i]);
+			err=bsdconv_file(ins, inf, otf, argv[i]);
 			fclose(inf);
-			fclose(otf);
-			unlink(argv[i]);
-			rename(tmp,argv[i]);
+			if(fclose(otf)!=0)
+				err=-1;
+			if(err==0){
+#ifdef WIN32
+				unlink(argv[i]);
+#endif
+				err=rename(tmp,argv[i]);
+			}
+			if(err!=0){
+				fprintf(stderr, "Failed converting %s in place.\n", argv[i]);
+				unlink(tmp);
+				free(tmp);
+				bsdconv_destroy(ins);
+				exit(1);
+			}
 			free(tmp);
 
 		}else{
@@ -162,11 +188,12 @@ int main(int argc, char *argv[]){
 				bsdconv_destroy(ins);
 				exit(1);
 			}
-			bsdconv_file(ins, inf, stdout, argv[i]);
+			if(bsdconv_file(ins, inf, stdout, argv[i])!=0)
+				err=1;
 			fclose(inf);
 		}
 	}
 	bsdconv_destroy(ins);
 
-	return 0;
+	return err?1:0;
 }
-- 
2.43.0


From 0b2508bf38e80cc463a81c9282187e24acf00739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 72/90] fix: list of codecs has blank lines, parts of long
 lines and repeated names of the alias file

---
 src/libbsdconv_module.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 60b7e0e..322e590 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -154,6 +154,8 @@ char ** bsdconv_modules_list(int phase_type){
 	char **list=malloc(sizeof(char *) * 8);
 	int size=8;
 	int length=0;
+	int i,j;
+	int skip,cont;
 	char *cwd;
 	char *c;
 	DIR *dir;
@@ -223,8 +225,13 @@ char ** bsdconv_modules_list(int phase_type){
 	chdir(type);
 	fp=fopen("alias","rb");
 	if(fp!=NULL){
+		cont=0;
 		while(fgets(buf, sizeof(buf), fp)!=NULL){
-			if(buf[0]=='#')
+			/* the rest of a line longer than the buffer is no line of its own */
+			skip=cont;
+			cont=(strchr(buf, '\n')==NULL);
+			/* as in tools/mkalias.py, an alias is a line with a tab */
+			if(skip || buf[0]=='#' || buf[0]=='\t' || strchr(buf, '\t')==NULL)
 				continue;
 			if(length>=size){
 				size+=8;
@@ -241,6 +248,17 @@ char ** bsdconv_modules_list(int phase_type){
 		list=realloc(list, sizeof(char *) * size);
 	}
 	qsort(list, length, sizeof(char *), scmp);
+	/* a module may also be named as an alias */
+	for(i=1,j=1;i<length;++i){
+		if(strcmp(list[i], list[j-1])==0){
+			free(list[i]);
+		}else{
+			list[j]=list[i];
+			j+=1;
+		}
+	}
+	if(length>0)
+		length=j;
 	list[length]=NULL;
 	chdir(cwd);
 	free(cwd);
-- 
2.43.0


From 824d478d27f5ac32de36ae8588352c5eb2fa0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 73/90] fix: alias lookup of an empty name gives an empty
 definition

---
 src/libbsdconv_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 322e590..2be0e2f 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -66,7 +66,7 @@ char * bsdconv_solve_alias(int type, const char *_codec){
 	ret=ins->output.data;
 	ret[ins->output.len]=0;
 	ct=bsdconv_counter(ins, "ERR");
-	if(*ct>0){
+	if(*ct>0 || ins->output.len==0){
 		free(ret);
 		ret=NULL;
 	}
-- 
2.43.0


From 4c3524fe22e4c1dcc01b0c21781fe0acdf6e903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:15 +0000
Subject: [PATCH 74/90] fix: alias lookup ignores characters outside ASCII in
 names

---
 src/libbsdconv_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 2be0e2f..74d8dbc 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -66,7 +66,7 @@ char * bsdconv_solve_alias(int type, const char *_codec){
 	ret=ins->output.data;
 	ret[ins->output.len]=0;
 	ct=bsdconv_counter(ins, "ERR");
-	if(*ct>0 || ins->output.len==0){
+	if(*ct>0 || *bsdconv_counter(ins, "IERR")>0 || ins->output.len==0){
 		free(ret);
 		ret=NULL;
 	}
-- 
2.43.0


From 21e256a963e5b1d47f34e2996b037bfbc9eda18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 75/90] fix: completion of an empty argument looks at the byte
 before it

---
 src/bsdconv-completion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bsdconv-completion.c b/src/bsdconv-completion.c
index 8a3aaee..e24606f 100644
--- a/src/bsdconv-completion.c
+++ b/src/bsdconv-completion.c
@@ -32,7 +32,7 @@ int main(int argc, char *argv[]){
 		arg+=1;
 	}
 	i=strlen(arg)-1;
-	if(arg[i]=='\'' || arg[i]=='"'){
+	if(i>=0 && (arg[i]=='\'' || arg[i]=='"')){
 		arg[i]=0;
 	}
 
-- 
2.43.0


From 0a846c8e64dc5e0e004f56413c575356a4d8425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 76/90] fix: decode decimal entities of exactly 1000 digits

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index 39e913d..538619a 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -67,7 +67,7 @@ void cbconv(struct bsdconv_instance *ins){
 			return;
 		}
 		if(t->status){
-			++t->status;
+			t->status=1;
 			if(t->tbl[(unsigned char)d]==-1) DEADEND();
 			t->buf.i*=t->b;
 			t->buf.i+=t->tbl[(unsigned char)d];
-- 
2.43.0


From b7718cdeb42f6ac0bc173a663baf78c7f61c694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 77/90] fix: report codecs whose inner conversion cannot be
 created instead of crashing

---
 modules/inter/ALIAS-FROM.c  | 3 +++
 modules/inter/ALIAS-INTER.c | 3 +++
 modules/inter/TRIM-WIDTH.c  | 4 ++++
 modules/inter/_NFC.c        | 5 +++++
 4 files changed, 15 insertions(+)

diff --git a/modules/inter/ALIAS-FROM.c b/modules/inter/ALIAS-FROM.c
index e9c9844..b24fece 100644
--- a/modules/inter/ALIAS-FROM.c
+++ b/modules/inter/ALIAS-FROM.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -5,6 +6,8 @@
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/ALIAS-INTER.c b/modules/inter/ALIAS-INTER.c
index 895e8be..cb4e690 100644
--- a/modules/inter/ALIAS-INTER.c
+++ b/modules/inter/ALIAS-INTER.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -5,6 +6,8 @@
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 2912397..4d334be 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -41,6 +41,10 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	}
 
 	r->ins=bsdconv_create("WIDTH");
+	if(r->ins==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->full=bsdconv_counter(r->ins, "FULL");
 	r->half=bsdconv_counter(r->ins, "HALF");
 	r->ambi=bsdconv_counter(r->ins, "AMBI");
diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index f4839bf..cbff2c2 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include "../../src/bsdconv.h"
 
 #include "_NF-CCC.h"
@@ -15,6 +16,10 @@ struct my_s {
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
 	r->map=bsdconv_create("_NFC-MAP,COUNT#ERR");
+	if(r->map==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->err=bsdconv_counter(r->map, "ERR");
 	r->starter=NULL;
 	r->pending_tail=r->pending_head=malloc(sizeof(struct data_rt));
-- 
2.43.0


From cd32eb274c68c0d613bc4ee333741f56aeb6a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 78/90] fix: fail to load a codec whose program exists but
 cannot be loaded

---
 src/libbsdconv.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 2358179..7b7975f 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -124,6 +124,14 @@ int _loadcodec(struct bsdconv_codec *cd, char *path){
 		cd->cbctl=SHAREOBJECT_SYMBOL(cd->dl,"cbctl");
 		cd->cbdestroy=SHAREOBJECT_SYMBOL(cd->dl,"cbdestroy");
 	}
+#ifndef WIN32
+	else if(access(path, F_OK)==0){
+		munmap(cd->z, cd->maplen);
+		close(cd->fd);
+		SetLastError(EOPNOTSUPP);
+		return 0;
+	}
+#endif
 
 	return 1;
 }
-- 
2.43.0


From ed8d1189ab76c2617ced841e275fd272bb1e8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:39 +0000
Subject: [PATCH 79/90] fix: free every codec name when loading a codec fails

---
 src/libbsdconv.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 7b7975f..99e06af 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -405,7 +405,7 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	int e=0;
 	struct bsdconv_instance *ins=NULL;
 	char *conversion=malloc(strlen(_conversion)+1);
-	int i, j;
+	int i, j, m, n;
 	char *c;
 	const char *d;
 	char whitespace[256]={0};
@@ -485,12 +485,11 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(!loadcodec(&ins->phase[i].codec[j], ins->phase[i].type)){
-				free(ins->phase[i].codec[j].desc);
-				j-=1;
-				for(;i>=1;j=ins->phase[--i].codecn){
-					for(;j>=0;--j){
-						free(ins->phase[i].codec[j].desc);
-						unloadcodec(&ins->phase[i].codec[j]);
+				for(m=1;m<=ins->phasen;++m){
+					for(n=0;n<=ins->phase[m].codecn;++n){
+						free(ins->phase[m].codec[n].desc);
+						if(m<i || (m==i && n<j))
+							unloadcodec(&ins->phase[m].codec[n]);
 					}
 				}
 				goto bsdconv_create_error;
-- 
2.43.0


From c173f75307a127e21e76843af2087c4e2bac558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:40 +0000
Subject: [PATCH 80/90] fix: report a missing vital codec on standard error,
 not on standard output

---
 src/libbsdconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 99e06af..600bf25 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -438,7 +438,7 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 			for(j=0;j<=ins->phase[i].codecn;++j){
 				if(!bsdconv_module_check(ins->phase[i].type, ins->phase[i].codec[j].desc)){
 					if(bsdconv_module_vital(ins->phase[i].type, ins->phase[i].codec[j].desc)){
-						printf("error %s\n", ins->phase[i].codec[j].desc);
+						fprintf(stderr, "error %s\n", ins->phase[i].codec[j].desc);
 						free(conversion);
 						for(i=1;i<=ins->phasen;++i){
 							for(j=0;j<=ins->phase[i].codecn;++j){
-- 
2.43.0


From 4bf47743eca7b87aab180aef903bce7332031a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:04 +0000
Subject: [PATCH 81/90] fix: write all output to a descriptor when a write is
 interrupted or takes only a part

---
 src/libbsdconv.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 600bf25..52c6397 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -628,6 +628,7 @@ void bsdconv(struct bsdconv_instance *ins){
 	char *ptr;
 	FILE *fp;
 	int fd;
+	ssize_t n;
 	unsigned char c;
 	offset_t loopback;
 	struct bsdconv_phase *prev_phase;
@@ -1138,7 +1139,15 @@ void bsdconv(struct bsdconv_instance *ins){
 			fd=(intptr_t)ins->output.data;
 			while(last_phase->data_head->next){
 				data_ptr=last_phase->data_head->next;
-				write(fd, data_ptr->data, data_ptr->len);
+				/* a write may be interrupted, or take only a part */
+				for(ptr=data_ptr->data, i=0;i<data_ptr->len;i+=n){
+					n=write(fd, ptr+i, data_ptr->len-i);
+					if(n<0){
+						if(errno!=EINTR)
+							break;
+						n=0;
+					}
+				}
 				last_phase->data_head->next=last_phase->data_head->next->next;
 				DATUM_FREE(ins, data_ptr);
 			}
-- 
2.43.0


From c479be41b064ed6f99e42c2298d913f4d7143f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:01 +0000
Subject: [PATCH 82/90] fix: report a table source that cannot be read

---
 src/bsdconv-mktable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index ded68c1..d18978e 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -431,6 +431,10 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 		todo=NULL;
 	}
 	free(newtodo);
+	if(ferror(fp)){
+		fprintf(stderr, "Failed reading input file %s.\n", argv[1]);
+		exit(1);
+	}
 	fclose(fp);
 	free(holder.base);
 
-- 
2.43.0


From 4f4e4830bf3eaacc9fee3c19789ed874b2a89850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:01 +0000
Subject: [PATCH 83/90] fix: report a compiled table that cannot be written
 completely

---
 src/bsdconv-mktable.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index d18978e..02df0cc 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -588,7 +588,11 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 		data_t=data_t->n;
 		FFREE(tofree);
 	}
-	fclose(fp);
+	i=ferror(fp);
+	if(fclose(fp)!=0 || i){
+		fprintf(stderr, "Failed writing output file %s.\n", argv[2]);
+		exit(1);
+	}
 	printf("Total size: %u\n", (unsigned int)offset);
 
 #ifdef USE_FMALLOC
-- 
2.43.0


From 2e5364208e19d00c6f565cb28acfef653dda1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:58 +0000
Subject: [PATCH 84/90] fix: keep the table of phases of a conversion off the
 stack

A conversion with more than about a million phases overflowed it.
---
 src/libbsdconv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 52c6397..71d89e6 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -330,7 +330,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 		if(*t==':' || *t=='|')++i;
 	}
 	ins->phasen=i;
-	char *phase_off[i+2];
+	char **phase_off=malloc(sizeof(char *) * (i+2)); /* too many for the stack */
 
 	ins->phase=malloc(sizeof(struct bsdconv_phase) * (i+1));
 
@@ -363,6 +363,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 				}
 			}
 		}else{ // empty phase
+			free(phase_off);
 			free(ins->phase);
 			free(ins);
 			free(conversion);
@@ -390,6 +391,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 				for(i=1;i<=ins->phasen;++i){
 					free(ins->phase[i].codec);
 				}
+				free(phase_off);
 				free(ins->phase);
 				free(ins);
 				free(conversion);
@@ -397,6 +399,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 			}
 		}
 	}
+	free(phase_off);
 	free(conversion);
 	return ins;
 }
-- 
2.43.0


From 4449c60eb634262b0c79e196ca7e52033c1610be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:31 +0000
Subject: [PATCH 85/90] fix: TRIM-WIDTH: every cell let through took one more
 from the inner instance and left it in the outer one's pool

---
 modules/inter/TRIM-WIDTH.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 4d334be..a4b413f 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -66,6 +66,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	struct data_rt *data;
 
 	bsdconv_counter_reset(r->ins, NULL);
 	bsdconv_init(r->ins);
@@ -76,12 +77,12 @@ void cbconv(struct bsdconv_instance *ins){
 	bsdconv(r->ins);
 	int w=*(r->full)*2 + *(r->half) + *(r->ambi) * r->ambi_width;
 	if(r->remain >= w){
-		this_phase->data_tail->next=r->ins->phase[r->ins->phasen].data_head->next;
-		while(this_phase->data_tail->next){
+		/* the cells themselves stay with the inner instance, which reuses them */
+		for(data=r->ins->phase[r->ins->phasen].data_head->next;data;data=data->next){
+			this_phase->data_tail->next=dup_data_rt(ins, data);
 			this_phase->data_tail=this_phase->data_tail->next;
+			this_phase->data_tail->next=NULL;
 		}
-		r->ins->phase[r->ins->phasen].data_head->next=NULL;
-		r->ins->phase[r->ins->phasen].data_tail=r->ins->phase[r->ins->phasen].data_head;
 		r->remain -= w;
 	}else{
 		r->remain=-1;
-- 
2.43.0


From 0dd28adc303248eb9fbc3994fe666f0fae62ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:31 +0000
Subject: [PATCH 86/90] fix: _NFC: cells moved from one instance's pool to the
 other one's with every pair looked at, and were never used again

---
 modules/inter/_NFC.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index cbff2c2..eb68a56 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -98,7 +98,7 @@ void cbconv(struct bsdconv_instance *ins){
 						bsdconv_counter_reset(r->map, NULL);
 						r->map->input=*(r->starter);
 						r->map->input.flags &= ~F_FREE;
-						DATA_MALLOC(ins, r->map->input.next);
+						DATA_MALLOC(r->map, r->map->input.next);
 						*(r->map->input.next)=*(this_phase->curr);
 						r->map->input.next->flags &= ~F_FREE;
 						r->map->input.next->next=NULL;
@@ -107,9 +107,7 @@ void cbconv(struct bsdconv_instance *ins){
 						if(*(r->err)==0){
 							DATUM_FREE(ins, r->starter);
 							r->status=1;
-							r->starter=r->map->phase[r->map->phasen].data_head->next;
-							r->map->phase[r->map->phasen].data_head->next=NULL;
-							r->map->phase[r->map->phasen].data_tail=r->map->phase[r->map->phasen].data_head;
+							r->starter=dup_data_rt(ins, r->map->phase[r->map->phasen].data_head->next);
 						}else{
 							cbflush(ins);
 							r->status=1;
@@ -131,7 +129,7 @@ void cbconv(struct bsdconv_instance *ins){
 						bsdconv_counter_reset(r->map, NULL);
 						r->map->input=*(r->starter);
 						r->map->input.flags &= ~F_FREE;
-						DATA_MALLOC(ins, r->map->input.next);
+						DATA_MALLOC(r->map, r->map->input.next);
 						*(r->map->input.next)=*(this_phase->curr);
 						r->map->input.next->flags &= ~F_FREE;
 						r->map->input.next->next=NULL;
@@ -141,9 +139,7 @@ void cbconv(struct bsdconv_instance *ins){
 						if(*(r->err)==0){ //combinable
 							DATUM_FREE(ins, r->starter);
 							r->status=1;
-							r->starter=r->map->phase[r->map->phasen].data_head->next;
-							r->map->phase[r->map->phasen].data_head->next=NULL;
-							r->map->phase[r->map->phasen].data_tail=r->map->phase[r->map->phasen].data_head;
+							r->starter=dup_data_rt(ins, r->map->phase[r->map->phasen].data_head->next);
 
 							if(r->pending_head->next){
 								t=this_phase->curr->next;
-- 
2.43.0


From 788ad9cc5a398bd4b0d348fa95437551600debb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:41 +0000
Subject: [PATCH 87/90] fix: _NFC: the cells of everything converted were kept
 until the text was interrupted by something that is not Unicode

---
 modules/inter/_NFC.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index eb68a56..54574a5 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -56,7 +56,7 @@ void cbconv(struct bsdconv_instance *ins){
 	int max=sizeof(ccc_table) / sizeof(struct ccc_interval) - 1;
 	int min = 0;
 	int mid;
-	struct data_rt *t;
+	struct data_rt *t, *data_ptr;
 
 	if(data[0]==0x1){
 		for(i=1;i<this_phase->curr->len;++i){
@@ -110,11 +110,13 @@ void cbconv(struct bsdconv_instance *ins){
 							r->starter=dup_data_rt(ins, r->map->phase[r->map->phasen].data_head->next);
 						}else{
 							cbflush(ins);
+							LISTFREE(ins, prev_phase->data_head, this_phase->curr, prev_phase->data_tail);
 							r->status=1;
 							r->starter=dup_data_rt(ins, this_phase->curr);
 						}
 					}else{ //replace first starters
 						cbflush(ins);
+						LISTFREE(ins, prev_phase->data_head, this_phase->curr, prev_phase->data_tail);
 						r->status=1;
 						r->starter=dup_data_rt(ins, this_phase->curr);
 					}
-- 
2.43.0


From e317cc8c4347566cadbabcc12f609a0731c1a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:26 +0000
Subject: [PATCH 88/90] fix: ALIAS-FROM, ALIAS-INTER: every cell given out was
 taken from the inner instance and left in the outer one's pool

---
 modules/inter/ALIAS-FROM.c  |  8 ++++----
 modules/inter/ALIAS-INTER.c | 15 +++++++--------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/modules/inter/ALIAS-FROM.c b/modules/inter/ALIAS-FROM.c
index b24fece..c83d160 100644
--- a/modules/inter/ALIAS-FROM.c
+++ b/modules/inter/ALIAS-FROM.c
@@ -20,6 +20,7 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_instance *uni=THIS_CODEC(ins)->priv;
 	const char *locale;
 	const char *s;
+	struct data_rt *data;
 
 	if (((locale=getenv("LC_ALL")) || (locale=getenv("LC_CTYPE")) || (locale=getenv ("LANG"))) && ((s=strstr(locale, "."))!=NULL)){
 		s+=1;
@@ -36,11 +37,10 @@ void cbconv(struct bsdconv_instance *ins){
 	uni->input.next=NULL;
 	uni->flush=1;
 	bsdconv(uni);
-	this_phase->data_tail->next=uni->phase[uni->phasen].data_head->next;
-	uni->phase[uni->phasen].data_head->next=NULL;
-	uni->phase[uni->phasen].data_tail=uni->phase[uni->phasen].data_head;
-	while(this_phase->data_tail->next!=NULL){
+	for(data=uni->phase[uni->phasen].data_head->next;data;data=data->next){
+		this_phase->data_tail->next=dup_data_rt(ins, data);
 		this_phase->data_tail=this_phase->data_tail->next;
+		this_phase->data_tail->next=NULL;
 	}
 
 	this_phase->state.status=NEXTPHASE;
diff --git a/modules/inter/ALIAS-INTER.c b/modules/inter/ALIAS-INTER.c
index cb4e690..71936ca 100644
--- a/modules/inter/ALIAS-INTER.c
+++ b/modules/inter/ALIAS-INTER.c
@@ -22,6 +22,7 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_instance *uni = THIS_CODEC(ins)->priv;
   int found = 0;
 	const char *s;
+	struct data_rt *data;
 
   if(bsdconv_module_check(INTER, CNS11643_UNICODE)){
     found += 1;
@@ -33,11 +34,10 @@ void cbconv(struct bsdconv_instance *ins){
   	uni->input.next=NULL;
   	uni->flush=1;
   	bsdconv(uni);
-  	this_phase->data_tail->next=uni->phase[uni->phasen].data_head->next;
-  	uni->phase[uni->phasen].data_head->next=NULL;
-  	uni->phase[uni->phasen].data_tail=uni->phase[uni->phasen].data_head;
-  	while(this_phase->data_tail->next!=NULL){
+  	for(data=uni->phase[uni->phasen].data_head->next;data;data=data->next){
+  		this_phase->data_tail->next=dup_data_rt(ins, data);
   		this_phase->data_tail=this_phase->data_tail->next;
+  		this_phase->data_tail->next=NULL;
   	}
   }
 
@@ -50,11 +50,10 @@ void cbconv(struct bsdconv_instance *ins){
   	uni->input.next=NULL;
   	uni->flush=1;
   	bsdconv(uni);
-  	this_phase->data_tail->next=uni->phase[uni->phasen].data_head->next;
-  	uni->phase[uni->phasen].data_head->next=NULL;
-  	uni->phase[uni->phasen].data_tail=uni->phase[uni->phasen].data_head;
-  	while(this_phase->data_tail->next!=NULL){
+  	for(data=uni->phase[uni->phasen].data_head->next;data;data=data->next){
+  		this_phase->data_tail->next=dup_data_rt(ins, data);
   		this_phase->data_tail=this_phase->data_tail->next;
+  		this_phase->data_tail->next=NULL;
   	}
   }
 
-- 
2.43.0


From 3d440699012b6bef977e5e5cf03132218e10018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:15 +0000
Subject: [PATCH 89/90] fix: _NF-HANGUL-COMPOSITION: the cells of a run of
 syllables were kept as long as it went on

---
 modules/inter/_NF-HANGUL-COMPOSITION.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/inter/_NF-HANGUL-COMPOSITION.c b/modules/inter/_NF-HANGUL-COMPOSITION.c
index da17b65..fb5ab50 100644
--- a/modules/inter/_NF-HANGUL-COMPOSITION.c
+++ b/modules/inter/_NF-HANGUL-COMPOSITION.c
@@ -29,6 +29,8 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
 	unsigned char *data;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct bsdconv_phase *prev_phase=PREV_PHASE(ins);
+	struct data_rt *data_ptr;
 	data=this_phase->curr->data;
 	int i;
 	uint32_t ucs=0;
@@ -79,6 +81,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 					LIndex = ucs - LBase;
 					if (0 <= LIndex && LIndex < LCount){
+						LISTFREE(ins, prev_phase->data_head, this_phase->curr, prev_phase->data_tail);
 						r->pending = ucs;
 						r->status=1;
 						this_phase->state.status=SUBMATCH;
@@ -106,6 +109,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 					LIndex = ucs - LBase;
 					if (0 <= LIndex && LIndex < LCount){
+						LISTFREE(ins, prev_phase->data_head, this_phase->curr, prev_phase->data_tail);
 						r->pending = ucs;
 						r->status=1;
 						this_phase->state.status=SUBMATCH;
-- 
2.43.0


From 9d9d2d0a6f85d1ad7f72e6009f2bb158f98a375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:03 +0000
Subject: [PATCH 90/90] fix: WHITESPACE-RERAIL: the cells of everything
 converted were kept while some white space had still to be put back

---
 modules/inter/WHITESPACE-RERAIL.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/inter/WHITESPACE-RERAIL.c b/modules/inter/WHITESPACE-RERAIL.c
index 3c8d247..8bb6611 100644
--- a/modules/inter/WHITESPACE-RERAIL.c
+++ b/modules/inter/WHITESPACE-RERAIL.c
@@ -65,7 +65,7 @@ void cbflush(struct bsdconv_instance *ins){
 void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
-	struct data_rt *q;
+	struct data_rt *q, *data_ptr;
 
 	this_phase->state.status=NEXTPHASE;
 
@@ -99,8 +99,10 @@ void cbconv(struct bsdconv_instance *ins){
 	}
 
 	/* the rest of the queue is put out by cbflush() when nothing more comes */
-	if(t->queue)
+	if(t->queue){
+		LISTFREE(ins, PREV_PHASE(ins)->data_head, this_phase->curr, PREV_PHASE(ins)->data_tail);
 		this_phase->state.status=SUBMATCH;
+	}
 
 	return;
 }
-- 
2.43.0

