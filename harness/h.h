/* common helpers for database harnesses (public API only) */
#pragma once
#include "ws.h"
#include "dbapi.h"
#include "indexapi.h"
#include <string.h>
#ifndef DBSIZE
#define DBSIZE 1000000
#endif
static inline void *newdb(long size){ void *db=wg_attach_local_database(size); ws_assert(db!=NULL); return db; }
static inline int nrecords(void *db){ int n=0; void*r=wg_get_first_record(db); while(r){ n++; if(n>100000) ws__fail("record walk does not end"); r=wg_get_next_record(db,r); } return n; }
static inline int rec_listed(void *db,void*rec){ int n=0; void*r=wg_get_first_record(db); while(r){ if(r==rec) n++; r=wg_get_next_record(db,r); } return n; }
/* comparison entry point (internal header conflicts with dbapi.h) */
wg_int wg_compare(void *db, wg_int a, wg_int b, int depth);
#define WG_EQUAL 0
#define WG_GREATER 1
#define WG_LESSTHAN -1
#ifndef WG_COMPARE_REC_DEPTH
#define WG_COMPARE_REC_DEPTH 7
#endif
#define WG_COMPARE(d,a,b) ((a)==(b) ? WG_EQUAL : wg_compare(d,a,b,WG_COMPARE_REC_DEPTH))
