/* harness over the internal headers (index structures are inspected) */
#ifndef HI_H
#define HI_H
#include "ws.h"
#include <string.h>
#include "config.h"
#include "dballoc.h"
#include "dbdata.h"
#include "dbcompare.h"
#include "dbindex.h"
#include "dbquery.h"
#include "dbmem.h"
static inline void *newdb(long size){ void *db=wg_attach_local_database(size); ws_assert(db!=NULL); return db; }
static inline int nrecords(void *db){ int n=0; void*r=wg_get_first_record(db); while(r){ n++; if(n>100000) ws__fail("record walk does not end"); r=wg_get_next_record(db,r); } return n; }
#define HDR(db,id) ((wg_index_header*)offsettoptr(db,id))
#define TN(db,o) ((struct wg_tnode*)offsettoptr(db,o))
/* rows of a sorted index in order; checks the structure the index operations rely on */
static gint ti_rows[400]; static int ti_n; static gint ti_nodes[200]; static int ti_nn;
static int ti_walk(void *db, gint id, gint off, gint parent, int depth){ struct wg_tnode*t=TN(db,off); int l=0,r=0,i,col=HDR(db,id)->rec_field_index[0];
  ws_check(depth<30,"the tree has an end"); ws_check(t->parent_offset==parent,"a tree node knows its parent");
  if(t->left_child_offset) l=ti_walk(db,id,t->left_child_offset,off,depth+1);
  ws_check(t->number_of_elements<=WG_TNODE_ARRAY_SIZE && (t->number_of_elements>0 || (!parent&&!t->left_child_offset&&!t->right_child_offset)),"a tree node holds rows");
  ws_assert(ti_nn<200); ti_nodes[ti_nn++]=off;
  for(i=0;i<t->number_of_elements;i++){ ws_assert(ti_n<400); ti_rows[ti_n++]=t->array_of_values[i]; }
  if(t->number_of_elements>0){ ws_check(t->current_min==wg_get_field(db,offsettoptr(db,t->array_of_values[0]),col),"the lower bound of a node is its first value"); ws_check(t->current_max==wg_get_field(db,offsettoptr(db,t->array_of_values[t->number_of_elements-1]),col),"the upper bound of a node is its last value"); }
  if(t->right_child_offset) r=ti_walk(db,id,t->right_child_offset,off,depth+1);
  ws_check(t->left_subtree_height==l&&t->right_subtree_height==r,"a tree node knows the height of its subtrees"); ws_check(l-r<=1&&r-l<=1,"the tree is balanced"); return 1+(l>r?l:r); }
static inline void ti_collect(void *db, gint id){ int i; gint o; ti_n=ti_nn=0; ti_walk(db,id,TTREE_ROOT_NODE(HDR(db,id)),0,0);
#ifdef TTREE_CHAINED_NODES
  ws_check(TTREE_MIN_NODE(HDR(db,id))==ti_nodes[0]&&TTREE_MAX_NODE(HDR(db,id))==ti_nodes[ti_nn-1],"the index knows its outer nodes");
  for(i=0;i<ti_nn;i++){ ws_check(TN(db,ti_nodes[i])->succ_offset==(i+1<ti_nn?ti_nodes[i+1]:0),"the forward chain follows the order"); ws_check(TN(db,ti_nodes[i])->pred_offset==(i?ti_nodes[i-1]:0),"the backward chain follows the order"); }
#endif
}
#endif
