/* M01: attaching */
#include "hi.h"
#include <errno.h>
#include <limits.h>
long ws_syscall_hook(long nr,long a,long b,long c,long d){ errno=ETIMEDOUT; return -1; }
gint wg_start_write(void*db);
#define IMG 150000
static void*attach(int how,const char*name,gint size){ switch(how){ case 0: return wg_attach_database(name,size); case 1: return wg_attach_existing_database(name); case 2: return wg_attach_logged_database(name,size); case 3: return wg_attach_database_mode(name,size,0660); default: return wg_attach_logged_database_mode(name,size,0600); } }
/* the areas of a new database are inside it and apart */
static void inside(void*db,gint size){ db_memsegment_header*h=dbmemsegh(db); gint lo[16],hi[16]; int n=0,i,j; ws_check(wg_database_size(db)==size,"the size is reported"); ws_check(h->free>=(gint)sizeof(db_memsegment_header)&&h->free<size,"the free space is inside"); ws_check(wg_database_freesize(db)>=0&&wg_database_freesize(db)<=size-h->free,"free space is not overstated");
#define AREA(a) do { lo[n]=h->a.subarea_array[0].offset; hi[n]=lo[n]+h->a.subarea_array[0].size; ws_check(h->a.last_subarea_index==0,"one area"); ws_check(h->a.subarea_array[0].alignedoffset>=lo[n]&&h->a.subarea_array[0].alignedoffset+h->a.subarea_array[0].alignedsize<=hi[n],"the usable part is inside its area"); n++; } while(0)
  AREA(datarec_area_header); AREA(longstr_area_header); AREA(listcell_area_header); AREA(shortstr_area_header); AREA(word_area_header); AREA(doubleword_area_header); AREA(tnode_area_header); AREA(indexhdr_area_header); AREA(indextmpl_area_header); AREA(indexhash_area_header);
  lo[n]=h->strhash_area_header.arraystart; hi[n]=lo[n]+h->strhash_area_header.arraylength*sizeof(gint); ws_check(lo[n]>=h->strhash_area_header.offset&&hi[n]<=h->strhash_area_header.offset+h->strhash_area_header.size,"the hash array is inside its area"); n++; lo[n]=h->locks.storage; hi[n]=lo[n]+1; n++;
  for(i=0;i<n;i++){ ws_check(lo[i]>=(gint)sizeof(db_memsegment_header)&&hi[i]<=h->free,"an area is inside the database"); for(j=0;j<i;j++) ws_check(hi[i]<=lo[j]||hi[j]<=lo[i],"areas are apart"); } }
static void fresh(void*db){ void*r; ws_check(wg_get_first_record(db)==NULL,"a new database is empty"); r=wg_create_record(db,3); ws_check(r!=NULL&&wg_get_first_record(db)==r&&wg_get_next_record(db,r)==NULL,"a new database can be used"); ws_check(wg_start_write(db)!=0,"a new database is not locked"); }
#ifdef U_COMPAT /* every header */
void ws_main(void){ db_memsegment_header*h; void*db=wg_attach_database("1000",IMG),*d2; unsigned m,v,f; int how=ws_choose(5,"how"),big=ws_choose(2,"bytes"); gint sz=ws_choose(3,"size"); char*copy; ws_assert(db!=NULL); wg_create_record(db,2); ws_assert(wg_detach_database(db)==0); h=(db_memsegment_header*)ws_shm_data(1000); ws_assert(h); if(how==2||how==4){ if(ws_choose(2,"active")) h->logging.active=1; } sz=sz==0?0:sz==1?IMG:IMG+1;
  { unsigned want=0;
#ifdef HAVE_64BIT_GINT
    want|=1;
#endif
#if defined(LOCK_PROTO) && (LOCK_PROTO > 1)
    want|=2;
#endif
#ifdef TTREE_CHAINED_NODES
    want|=4;
#endif
#ifdef USE_BACKLINKING
    want|=8;
#endif
#ifdef USE_CHILD_DB
    want|=16;
#endif
#ifdef USE_INDEX_TEMPLATE
    want|=32;
#endif
    ws_check((unsigned)h->features==want,"the header names the features of this build"); ws_check(h->version==((VERSION_REV<<16)|(VERSION_MINOR<<8)|VERSION_MAJOR),"the header names the version"); ws_check(((unsigned char*)h)[0]==0xe3||((unsigned char*)h)[0]==(MEMSEGMENT_MAGIC_MARK&255),"the mark"); }
  m=(unsigned)ws_u(32,"mark"); v=(unsigned)ws_u(32,"version"); f=(unsigned)ws_u(32,"features"); if(big) ws_assume(m==(unsigned)h->mark); { unsigned m0=h->mark,v0=h->version,f0=h->features; int ok,code; h->mark=m; h->version=v; h->features=f; copy=malloc(IMG); memcpy(copy,h,IMG);
    code=wg_check_header_compat(h); ws_check(code==(m!=m0?(m==__builtin_bswap32(m0)?-2:-1):v!=v0?-3:f!=f0?-4:0),"the reason of the refusal");
    ok=m==m0&&v==v0&&f==f0; if(how!=1&&sz>IMG) ok=0; if((how==2||how==4)&&!h->logging.active) ok=0;
    d2=attach(how,"1000",sz); ws_check(!d2==!ok,"exactly compatible memory is accepted"); ws_check(memcmp(copy,h,IMG)==0,"attaching changes nothing"); ws_check(ws_shm_nattch(1000)==(d2?1:0),"a refused segment is not left attached"); if(d2){ ws_check(dbmemseg(d2)==(void*)h,"the existing memory is attached"); ws_check(wg_get_record_len(d2,wg_get_first_record(d2))==2,"its records are there"); ws_reach("accepted"); } else ws_reach("refused"); } }
#elif defined(U_SIZE) /* every 64-bit size of a segment */
void ws_main(void){ gint size=(gint)ws_u(64,"size"); db_handle*d; char*mem=calloc(1,400000); int err; ws_assume(size<=130000); d=calloc(1,sizeof *d); d->db=mem; d->logdata=NULL; err=wg_init_db_memsegment(d,77,size); if(err){ ws_check(((db_memsegment_header*)mem)->mark!=MEMSEGMENT_MAGIC_MARK,"a failed segment is not marked valid"); ws_reach("refused"); } else { db_memsegment_header*h=(db_memsegment_header*)mem; ws_check(h->key==77,"key"); inside(d,size); ws_reach("made"); } if(size<(gint)sizeof(db_memsegment_header)){ int i; for(i=0;i<64;i++) ws_check(mem[i]==0,"nothing is written where there is no room"); ws_check(err!=0,"too small"); } }
#elif defined(U_LOCAL) /* exact memory: overruns show */
void ws_main(void){ int k=ws_choose(ws_param("steps",600),"k"); gint size=k<300?1+k*160:k*ws_param("by",256); long live; void*db; wg_delete_local_database(wg_attach_local_database(0)); live=ws_alloc_live; db=wg_attach_local_database(size); if(!db){ ws_check(ws_alloc_live==live,"nothing is kept"); ws_reach("refused"); return; } inside(db,size); fresh(db); { int n=0; while(n<20000&&wg_create_record(db,1+n%7)) n++; ws_check(nrecords(db)==n+1,"the records are there"); } wg_delete_local_database(db); ws_check(ws_alloc_live==live,"all memory is given back"); ws_reach("made"); }
#elif defined(U_MODE) /* access rights */
void ws_main(void){ int mode=(int)ws_u(32,"mode"),m; void*db=ws_choose(2,"log")?wg_attach_logged_database_mode("1000",IMG,mode):wg_attach_database_mode("1000",IMG,mode); ws_assert(db!=NULL); m=ws_shm_mode(1000);
  ws_check((m&0600)==0600,"the owner can read and write"); ws_check((m&0111)==0&&(m&~0666)==0,"nothing beyond reading and writing"); ws_check((m&060)==060||(m&060)==0,"the group can do both or nothing"); ws_check((m&06)==06||(m&06)==0,"others can do both or nothing"); ws_check(((m&066)&~mode)==0,"nothing is granted that was not asked for"); ws_check((mode&060)!=060||(m&060)==060,"what was asked for is granted to the group"); ws_check((mode&06)!=06||(m&06)==06,"what was asked for is granted to others"); ws_check(wg_memmode(db)==m,"the mode is reported"); ws_reach("made"); }
#else /* histories of attaching, detaching and deleting */
static const char*NM[]={"1","2",NULL,"1000","-7","0","4294967297","99999999999999999999","","2x"}; static const int KEY[]={1,2,1000,1000,1000,1000,1000,1000,1000,2};
void ws_main(void){ void*h[8]; int hk[8],n=0,i,j,ops=ws_param("ops",3),names=ws_param("names",10),ex[3]={0,0,0}; gint size[3]={0,0,0}; static const int ks[3]={1,2,1000}; void*seg[3]={NULL,NULL,NULL}; ws_malloc_faults=ws_param("faults",0);
  for(i=0;i<ops;i++){ int op=ws_choose(ws_param("kinds",5),"op"); if(op<=2){ int nm=ws_choose(names,"name"),k=KEY[nm],q,how=op==0?0:op==1?1:2,f=ws_faults_hit,segs=ws_shm_count(),all=ws_shm_all(),want; gint sz=op==1?0:ws_choose(2,"size")*60000+IMG; void*d; for(q=0;ks[q]!=k;q++); 
      want=ex[q]?(op==1||size[q]>=sz)&&(op!=2||((db_memsegment_header*)seg[q])->logging.active):op!=1; d=attach(how,NM[nm],sz);
      if(d){ ws_check(want,"attached only when that is possible"); if(!ex[q]){ ex[q]=1; size[q]=sz; seg[q]=ws_shm_data(k); ws_check(ws_shm_size(k)==sz,"the size asked for"); inside(d,sz); ws_check(((db_memsegment_header*)seg[q])->key==k,"the key is stored"); ws_check(wg_get_first_record(d)==NULL,"a new database is empty"); ws_check(wg_create_record(d,q+1)!=NULL,"and can be used"); ws_check(ws_shm_count()==segs+1,"one segment is made"); } else ws_check(ws_shm_count()==segs,"no segment is made"); ws_check(dbmemseg(d)==seg[q]&&ws_shm_data(k)==seg[q],"the name leads to its memory"); ws_check(wg_get_record_len(d,wg_get_first_record(d))==q+1,"the records are there"); ws_check(wg_database_size(d)==size[q],"the size is reported"); ws_check(ws_shm_all()==all+1,"attached once"); h[n]=d; hk[n++]=q; ws_reach("attached"); }
      else { ws_check(!want||ws_faults_hit>f,"refused only for a reason"); ws_check(ws_shm_all()==all,"nothing stays attached"); ws_check(ws_shm_count()==segs,"no segment is left behind"); ws_reach("refused"); } }
    else if(op==3){ if(n){ int w=ws_choose(n,"which"),all=ws_shm_all(); ws_check(wg_detach_database(h[w])==0,"detached"); ws_check(ws_shm_all()==all-1,"detached once"); n--; h[w]=h[n]; hk[w]=hk[n]; } }
    else { int nm=ws_choose(names,"name"),k=KEY[nm],q,r,used=0; for(q=0;ks[q]!=k;q++); for(j=0;j<n;j++) if(hk[j]==q) used=1; if(used) continue; r=wg_delete_database(NM[nm]); ws_check((r==0)==ex[q],"exactly an existing database is deleted"); ex[q]=0; ws_check(ws_shm_data(k)==NULL,"it is gone"); }
    for(j=0;j<3;j++) ws_check((ws_shm_data(ks[j])!=NULL)==ex[j],"the other databases stay"); } ws_reach("end"); }
#endif
