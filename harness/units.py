"""Table of verification units: which harness, which sources, which bounds."""
DB=['Db/'+f+'.c' for f in 'dballoc dbdata dbhash dbcompare dbindex dbquery dblock dbdump dblog dbmem dbutil dbjson dbschema dbmpool'.split()]+['json/yajl_all.c']
SRC_DEFS={}
BUDGET={'quick':{'unit':60,'total':240},'thorough':{'unit':600,'total':3000}}
ASSUME={'*':['clang -O0 IR of the current sources plus sroa/early-cse/simplifycfg; x86-64, 64-bit integers',
 'environment (process memory, files, shared memory, time, futex) is the model in harness/env.c; the C library is the model in harness/libc.c',
 'bounds are those listed per unit; nothing outside them is claimed']}
UNITS=[]
def unit(prop,name,harness,defs='',bounds='',srcs=DB,**k):
    UNITS.append(dict(prop=prop,name=name,harness=harness,defs=['-D'+d for d in defs.split()],bounds=bounds,srcs=srcs,**k))
unit('D01','d01_round','d_int.c','U_ROUND','all pairs of 64-bit integers, stored, read, overwritten')
unit('D01','d01_cmp','d_int.c','U_CMP','all pairs of 64-bit integers compared')
unit('A01','a01_split','a_alloc.c','U_SPLIT','hole of every length 0..max reused by every length 0..max, arbitrary field values',params={'max':36},reach=['split'])
unit('A01','a01_mix','a_alloc.c','U_MIX','every history of ops creations (lens lengths) and deletions after one record',params={'ops':5,'lens':5},tparams={'ops':7,'lens':8},reach=['mixed'])
unit('A01','a01_dv','a_alloc.c','U_DV','designated area consumed to every remainder, then a new area',params={'max':30},reach=['dv'])
unit('A01','a01_order','a_alloc.c','U_ORDER','n neighbours of one or two sizes, with or without a large one before them, dels of them deleted in every order, then 14 records in their place',params={'dels':6,'n':8},tparams={'dels':7,'n':10},reach=['order'],time=120)
unit('A02','a02_merge','a_alloc.c','U_MERGE','three neighbours of six lengths deleted in every order',reach=['merged'])
unit('A02','a02_cycle','a_reuse.c','U_CYCLE','every workload of ops records holding values of nine kinds, three deletion orders, three rounds',params={'ops':2,'lens':2},tparams={'ops':4,'lens':4},reach=['cycled'])
unit('A02','a02_fill','a_reuse.c','U_FILL','fill a small database with each kind, empty it, fill again',reach=['filled'])
unit('A01','a01_dv2','a_alloc.c','U_DV2','freed record as designated area between live neighbours of every length 0..max, then growth',params={'max':8},tparams={'max':16},reach=['dv2'])
unit('A01','a01_len','a_alloc.c','U_LEN','every 64-bit record length that is negative or above 100000',reach=['refused'])
unit('A03','a03_seg','a_oom.c','U_SEG','database filled to the last cell of every kind, six kinds of small releases, fourteen operations, four index set-ups',reach=['survived'])
unit('A03','a03_proc','a_oom.c','U_PROC','up to faults process-memory failures at any point of four operations',params={'faults':2},reach=['survived'])
unit('A03','a03_json','a_oom.c','U_PROC U_JSON','one process-memory failure at any point of parsing a JSON document',params={'faults':1},reach=['survived'])
unit('A04','a04_mix','a_alloc.c','U_MIX','every history of ops creations and deletions, walked after every step',params={'ops':5,'lens':5},tparams={'ops':7,'lens':8},reach=['mixed'])
unit('A04','a04_walk','a_walk.c','','every history of ops steps of 13 kinds (records of five lengths, sorted, hash and template indexes made and dropped, JSON parameters and documents, queries, loose strings, deletions), walked after every step',params={'ops':4},tparams={'ops':5},reach=['walked'])
unit('A04','a04_full','a_walk.c','U_FULL','a database filled to the last word, then every history of ops deletions (any of ten neighbours) and creations (four lengths), walked and compared after every step, then emptied and reused',params={'ops':4},tparams={'ops':5},reach=['full'])
unit('D03','d03_ymd','d_date.c','U_YMD','every day of years from..from+years-1: number, back, next day',params={'years':30,'from':1},tparams={'years':400},reach=['day'])
unit('D03','d03_ymd20','d_date.c','U_YMD','every day of years from..from+years-1',params={'years':32,'from':1890},tparams={'years':400},reach=['day'])
unit('D03','d03_ymd21','d_date.c','U_YMD','every day of years from..from+years-1',params={'years':32,'from':1990},tparams={'years':200},reach=['day'])
unit('D03','d03_ymd99','d_date.c','U_YMD','every day of years from..from+years-1',params={'years':10,'from':9995},tparams={'years':100},reach=['day'])
unit('D03','d03_iso','d_date.c','U_ISO','every day of years from..from+years-1 written as text and read back',params={'years':4,'from':2000},tparams={'years':400,'from':1800},reach=['iso'])
unit('D03','d03_isot','d_date.c','U_ISO U_ISOT','every instant of a day written as text and read back',params={'years':1,'from':2004},reach=['iso'])
unit('D03','d03_bad','d_date.c','U_BAD','all triples of 32-bit numbers',reach=['any'])
unit('D03','d03_hms','d_date.c','U_HMS','all quadruples of 32-bit numbers are accepted or refused',reach=['any'],qms=60000)
unit('D03','d03_hmsv','d_date.c','U_HMSV','every time of day: number, back, stored',reach=['time'])
unit('D03','d03_first','d_date.c','U_FIRST','fixed points of the calendar',reach=['first'])
unit('D02','d02_simple','d_scalar.c','U_SIMPLE','all 64-bit patterns of doubles, all characters, variable numbers, date and time numbers',reach=['kept','var'])
unit('D02','d02_fix','d_scalar.c','U_FIX','every double nearest to k ten-thousandths, for ks values of k',params={'ks':8},tparams={'ks':200},reach=['fix'])
unit('D02','d02_fixr','d_scalar.c','U_FIXR','every double accepted or refused as a fixed-point number',reach=['in'])
unit('D02','d02_fixd','d_scalar.c','U_FIXD','fixed points decode',reach=['fixd'])
unit('D02','d02_anon','d_scalar.c','U_ANON','anonymous constants of 0..4 and 40 characters of which one (thorough: two) arbitrary',params={'sym':0},tparams={'sym':1},reach=['anon'])
unit('D04','d04_short','d_str.c','U_SHORT','texts of 0..31 arbitrary non-zero bytes, copied into buffers of 0..len+2',reach=['short'])
unit('D04','d04_long','d_str.c','U_LONG','four kinds, ten lengths up to 300, seven annotations, extreme last bytes, buffers from 0 to just enough',reach=['long'])
unit('D05','d05_chain','d_share.c','U_CHAIN','470 strings in fewer hash slots; any one loses its references in three ways',reach=['chain'],params={'n':470})
unit('D05','d05_annot','d_share.c','U_ANNOT','400 texts with long annotations of their own in 750 slots, any one released in two ways',params={'n':400},tparams={'n':460},reach=['annot'])
unit('D05','d05_refs','d_share.c','U_REFS','every history of ops settings and deletions over three strings that differ in type or annotation only',params={'ops':5},tparams={'ops':6},reach=['refs'])
unit('R01','r01_set','r_field.c','U_SET','records of length 0,1,3,6; every 64-bit field number; eight operations; arbitrary integer values and summands',reach=['set','get'])
unit('R01','r01_new','r_field.c','U_NEW','new and raw records of length 0..8',reach=['new'])
unit('R02','r02_hist','r_refs.c','','every history of ops settings (any record, field, target) and deletions over recs records, then undone',params={'ops':4,'recs':3},tparams={'ops':5,'recs':3},reach=['refs'])
unit('R02','r02_idx','r_refs.c','U_IDX','the same with a sorted index on the first field',params={'ops':3,'recs':3},tparams={'ops':4,'recs':3},reach=['refs'])
unit('C01','c01_pair','c_cmp.c','U_PAIR','all pairs over thirteen kinds of value with arbitrary contents (numbers, characters, short texts) or ten texts',reach=['pair'])
unit('C01','c01_types','c_cmp.c','U_TYPES','all triples of twelve types',reach=['types'])
unit('C01','c01_rec','c_cmp.c','U_REC','three records of one or two arbitrary integers',reach=['rec'])
unit('C01','c01_depth','c_cmp.c','U_DEPTH','records nested 1..9 deep',reach=['depth'])
unit('I01','i01_sym','i_tree.c','U_SYM','trees of up to 33 rows in six patterns and two kinds of key, then ops insertions, changes and deletions of any row with arbitrary keys',params={'ops':1,'slo':0,'shi':8,'modes':2},tparams={'ops':2,'upds':33,'modes':3},reach=['sym'])
unit('I01','i01_run','i_tree.c','U_RUN','trees of up to 33 (thorough 90) rows emptied from any row on in seven steps',params={'slo':1,'shi':8},tparams={'slo':1,'shi':11},reach=['run'])
unit('I01','i01_edge','i_tree.c','U_EDGE','indexes on columns 0, 1, 126 and 127 at once; every history of ops creations (six lengths around the limits, raw or not), changes of any indexed column and deletions; any of the indexes dropped',params={'ops':3},tparams={'ops':4},reach=['edge'])
unit('I01','i01_hist','i_ref.c','U_HIST','every history of ops settings (references, four kinds of value, atomic) and deletions over three records with one or two sorted indexes',params={'ops':3,'recs':3},tparams={'ops':4},reach=['hist'])
unit('I01','i01_chain','i_ref.c','U_CHAIN','rows whose key is a record nested 0..7 deep, changed at the bottom ops times',params={'ops':2},tparams={'ops':3},reach=['chain'])
unit('I01','i01_mix','i_ref.c','U_MIX','every history of ops creations with eight kinds of value and records without the column, changes and deletions',params={'ops':3},tparams={'ops':4},reach=['mix'])
unit('I02','i02_pair','i_hash.c','U_PAIR','all pairs over 21 kinds of value (arbitrary 64-bit integers, doubles, variables, characters, dates, times) in one column of a one-slot table',reach=['pair'])
unit('I02','i02_multi','i_hash.c','U_MULTI','two-column keys over ten kinds of value in either order of columns',params={'kinds':8},tparams={'kinds':10},reach=['multi'])
unit('I02','i02_amb','i_hash.c','U_AMB','two rows of two columns with texts, URIs and blobs that imitate the joint between keys',params={'texts':6},tparams={'texts':9},reach=['amb'])
unit('I02','i02_hist','i_hash.c','U_HIST','every history of ops changes, deletions and creations over one to three columns, index made before or after the rows, all-collide or default table',params={'ops':3},tparams={'ops':4},reach=['hist'])
unit('I02','i02_json','i_hash.c','U_JSON','every history of ops changes of pairs and of elements of three shared (possibly nested) arrays under a JSON hash index',params={'ops':3},tparams={'ops':4},reach=['json'])
unit('I02','i02_raw','i_hash.c','U_RAW','a raw record filled in any order under a hash index on one to three columns',reach=['raw'])
unit('I03','i03_hist','i_tmpl.c','','every history of ops field changes (fixed values or arbitrary integers), deletions and creations under one or two of eight templates (sorted, hash, two-column hash; made before or after the rows)',params={'ops':2,'vals':4},tparams={'ops':3,'vals':6},reach=['tmpl'])
unit('I04','i04_hist','i_ctl.c','U_HIST','every history of ops creations and droppings of ten kinds of index',params={'ops':4},tparams={'ops':5},reach=['hist'])
unit('I04','i04_bad','i_ctl.c','U_BAD','every 64-bit column, type, column count and index id that is wrong, wrong templates, duplicate columns',reach=['bad'])
unit('I04','i04_space','i_ctl.c','U_SPACE','rounds of creation and dropping over 50 rows',params={'rounds':10},reach=['space'])

unit('Q01','q01_range','q_query.c','U_RANGE','one or two conditions (all pairs) with arbitrary bounds over tables of up to 60 rows with runs of 1..25 equal values, with and without a sorted index',reach=['range'])
unit('Q01','q01_cols','q_query.c','U_COLS','up to conds conditions (all relations, columns) and four match records over records of lengths 1..3 under eight sets of indexes',params={'rows':12,'conds':2},tparams={'rows':30,'conds':3},reach=['cols'])
unit('Q01','q01_kind','q_query.c','U_KIND','all pairs of fourteen kinds of value with arbitrary contents in every relation',reach=['kind'])
unit('Q01','q01_bad','q_query.c','U_BAD','every 64-bit column; missing and empty argument lists',reach=['bad'])
unit('Q02','q02_page','q_query.c','U_PAGE','result sizes around the page size, every 64-bit limit, with and without index or conditions',reach=['page'])
unit('Q03','q03_find','q_query.c','U_FIND','repeated search in every relation to every value over tables with runs of equal values',reach=['find'])
unit('Q03','q03_kind','q_query.c','U_KIND','search and parameters of fourteen kinds of value with arbitrary contents',reach=['kind'])
unit('Q03','q03_typed','q_query.c','U_FINDT','the typed search functions, every 32-bit integer',reach=['typed'])
unit('Q03','q03_bad','q_query.c','U_BAD','every 64-bit column',reach=['bad'])

unit('Q04','q04_query','q_json.c','U_QUERY','all pairs of documents of twelve kinds (nested up to the limit, arrays, repeated values, deleted ones) and every one or two pairs of two keys and seven values, four sets of indexes, with and without plain records',params={'docs':2,'vals':4},tparams={'docs':2,'vals':8},reach=['query'])
unit('Q04','q04_many','q_json.c','U_MANY','19..70 documents, two pairs, three sets of indexes',reach=['many'])
unit('J03','j03_del','q_json.c','U_DEL','all triples of documents of twelve kinds, one of them deleted, with and without references from outside and indexes',reach=['del'])

unit('J01','j01_struct','j_json.c','U_STRUCT','every structure of objects and arrays up to depth levels and width-1 elements with five kinds of leaves',params={'depth':2,'width':3},tparams={'depth':3,'width':3},reach=['struct'])
unit('J01','j01_num','j_json.c','U_NUM','29 extreme numbers in three places',reach=['num'])
unit('J01','j01_str','j_json.c','U_STR','keys and strings of len characters: arbitrary ASCII, every escape, \\u escapes, two- and three-byte characters',params={'len':1},tparams={'len':2},reach=['str'])
unit('J01','j01_long','j_json.c','U_LONG','strings and keys of lengths up to 5000, arrays of up to 39 elements, texts around the reading chunk, from memory and file',reach=['long'])
unit('J01','j01_depth','j_json.c','U_DEPTH','every nesting of objects and arrays up to 9 levels',reach=['deep','toodeep'])
unit('J02','j02_bad','j_json.c','U_BAD','every text of up to len (in five frames: inner) ASCII characters other than the slash',params={'len':4,'inner':2},tparams={'len':5,'inner':4},reach=['good','bad'])
unit('J02','j02_cut','j_json.c','U_CUT','a document cut at every point or followed by ten kinds of text',reach=['cut'])
unit('J02','j02_depth','j_json.c','U_DEPTH','every nesting of objects and arrays up to 9 levels',reach=['deep','toodeep'])
unit('T01','t01_print','t_text.c','U_PRINT','24 kinds of value with texts of 0..3 arbitrary bytes, nested and self-referring records, buffers of 0..60, 100, 255, 256 and 2000 bytes',params={'sizes':60},reach=['printed'])
unit('T01','t01_type','t_text.c','U_TYPE','every text of up to len arbitrary bytes, read as a value and as a query parameter, after an earlier error or not',params={'len':4},tparams={'len':5},reach=['null','int','double','str'])
unit('T01','t01_mut','t_text.c','U_MUT','26 texts (dates, times, numbers at the limits, long ones) with muts arbitrary bytes replaced, inserted or appended',params={'muts':1},tparams={'muts':2},reach=['date','time','int','double','str'],time=90)
unit('T02','t02_csv','t_text.c','U_CSV','one to recs records of 1, 2 or 21 fields of 13 kinds with texts of 1..len bytes that matter to CSV or not, exported and imported',params={'recs':1,'len':2},tparams={'recs':2,'len':3},reach=['back'])
unit('T02','t02_any','t_text.c','U_CSV U_ANY','one record of 1 or 2 fields, numbers, characters and texts of 1..len arbitrary bytes, exported and imported',params={'recs':1,'len':2,'few':1},tparams={'recs':1,'len':3,'few':1},reach=['back'])
unit('T02','t02_lines','t_text.c','U_LINES','every text of up to len characters (separators, line ends, digits, letters; the first arbitrary)',params={'len':5,'any':1},tparams={'len':6,'any':2},reach=['lines'])
LK=dict(tsan=['Db/dblock.c'])
LB='threads participants, rounds requests each (reads or writes), every interleaving with up to preempt preemptions at any access to shared memory, up to faults waits ended by a signal, a spurious wake-up or a time-out'
def lp(t,r,p,f): return {'threads':t,'rounds':r,'preempt':p,'faults':f}
for p_,n_,d_ in (('L01','l01_excl','U_EXCL'),('L02','l02_live','U_LIVE')):
    x_='' if p_=='L01' else '; every request is granted unless it times out, the lock and all its queue entries are usable at the end'
    unit(p_,n_,'l_lock.c',d_,LB+x_,params=lp(3,1,2,2),tparams=lp(3,1,4,2),reach=['done','waited','fault'],time=100,**LK)
    unit(p_,n_+'2','l_lock.c',d_,LB+x_,params=lp(3,2,1,1),tparams=lp(4,2,2,1),reach=['done','waited','fault'],time=100,**LK)
    for c_ in ('rpspin','wpspin'):
        unit(p_,n_+'_'+c_,'l_lock.c',d_,LB+x_+'; lock protocol '+c_,conf=c_,params=lp(3,2,2,0),tparams=lp(3,3,3,0),reach=['done'],**LK)
unit('L02','l02_tmo','l_lock.c','U_TMO','every time-out of 1 ms to 100 s, read and write lock',reach=['timed'])
unit('R01','r01_atomic','l_lock.c','U_ADD','threads participants making rounds atomic additions or updates each to one field, every interleaving with up to preempt preemptions',params=lp(3,2,3,0),tparams=lp(3,3,4,0),reach=['added'],tsan=['Db/dblock.c','Db/dbdata.c'])
unit('P01','p01_round','p_dump.c','U_ROUND','8 index set-ups, local or shared databases with or without journals, empty or filled targets of three sizes; contents compared, then the same operations on both',reach=['same'],time=120)
unit('P02','p02_bad','p_dump.c','U_BAD','a dump with arbitrary first 16 bytes, an arbitrary byte among the last five, flipped bits at head header positions and mid positions throughout, cut at 15 places, extended, rearranged, missing, or too large',params={'head':60,'mid':60},tparams={'head':400,'mid':400},reach=['refused'],time=120)
unit('P03','p03_fault','p_dump.c','U_FAULT','up to faults failing file operations at any point of a dump; database locked or not; journal or not',params={'faults':1},tparams={'faults':2},reach=['made','error'],time=120)
unit('P04','p04_vals','p_log.c','U_VALS','every 64-bit integer and double, date, time, character; texts of 0..35 bytes with arbitrary first and last bytes, blobs, 21 kinds of values, long texts; two sizes of the replaying database',reach=['replayed'])
unit('P04','p04_ops','p_log.c','U_OPS','every history of ops operations of opk kinds (creation, deletion, kinds kinds of values, references, documents, refused ones), after a dump or from the start, replayed into four kinds of databases',params={'ops':3,'kinds':4,'opk':9},tparams={'ops':5,'kinds':6,'opk':11},reach=['replayed'])
unit('P04','p04_reuse','p_log.c','U_REUSE','every history of n creations and deletions replayed into a database with three patterns of other records',params={'n':4},tparams={'n':6},reach=['replayed'])
unit('P04','p04_param','p_log.c','U_PARAM','parameter records, index templates and documents; replaying database indexed or not',reach=['replayed'])
unit('P05','p05_cut','p_log.c','U_CUT','a journal of 21 entries of all kinds ending after any byte',reach=['entries','broken'])
unit('P05','p05_byte','p_log.c','U_CUT U_BYTE','any other value in place of the kind of any entry, or of any byte of the start mark',reach=['mark','entry'])
unit('P06','p06_fault','p_log.c','U_FAULT','up to faults failing or short file operations anywhere in ops operations of five kinds, kinds kinds of values',params={'ops':3,'faults':1,'kinds':4},tparams={'ops':3,'faults':2,'kinds':6},reach=['failed','fine'])
unit('M01','m01_compat','m_attach.c','U_COMPAT','every 32-bit mark, version and features in the header of an existing segment, five ways of attaching, three sizes, journal active or not',reach=['accepted','refused'])
unit('M01','m01_size','m_attach.c','U_SIZE','every 64-bit segment size up to 130000 (all too small)',reach=['refused'])
unit('M01','m01_local','m_attach.c','U_LOCAL','local databases of sizes from 1 byte in steps of 160 and by bytes, in exactly that much memory, filled with records',params={'steps':600,'by':256},tparams={'steps':2400,'by':64},reach=['made','refused'])
unit('M01','m01_mode','m_attach.c','U_MODE','every 32-bit mode',reach=['made'])
unit('M01','m01_hist','m_attach.c','U_HIST','every history of ops steps (attach or create, attach existing, attach logged, detach, delete) with ten names and two sizes',params={'ops':3,'names':10,'kinds':5},tparams={'ops':4,'names':10,'kinds':5},reach=['attached','refused','end'])
unit('M01','m01_fault','m_attach.c','U_HIST','the same with a failure of memory or segment allocation or attaching anywhere',params={'ops':2,'names':4,'kinds':5,'faults':2},tparams={'ops':3,'names':4,'kinds':5,'faults':2},reach=['attached','refused','end'])
unit('X01','x01_value','x_ext.c','U_VALUE','every pair of 18 kinds of values (any integer, any double, annotated texts, blobs, records of records), owner below or above, one or two owners, four ways of leaving',reach=['refused','immediate','done'])
unit('X01','x01_link','x_ext.c','U_LINK','every history of ops steps (local and foreign references and texts stored, overwritten, records deleted)',params={'ops':3},tparams={'ops':4},reach=['linked'],time=90)
unit('X01','x01_reg','x_ext.c','U_REG','registration in shared and indexed databases, index creation and dumping afterwards, 1..24 databases',reach=['shared','index','noindex','dump','many'])
unit('H01','h01_pool','h_pool.c','U_POOL','every sequence of ops sizes (kinds of them, once or five times each), seven initial sizes',params={'ops':4,'kinds':8},tparams={'ops':5,'kinds':12},reach=['kept'])
unit('H01','h01_fault','h_pool.c','U_POOL','the same with faults failures of memory anywhere',params={'ops':3,'kinds':6,'faults':2},tparams={'ops':4,'kinds':8,'faults':2},reach=['kept','refused'])
unit('H01','h01_big','h_pool.c','U_BIG','every 32-bit size of a request after 0..2 others',reach=['any','refused'])
unit('H01','h01_atom','h_pool.c','U_ATOM','every type and arbitrary texts of 0..4 and 0..3 bytes or none',reach=['atom'])
unit('H01','h01_list','h_pool.c','U_LIST','n atoms in a list, three kinds of second texts',params={'n':400},tparams={'n':20000},reach=['list'])
unit('H02','h02_gh','h_pool.c','U_GH','every sequence of ops runs of 1, 5 or 9 keys of three groups (colliding in 2, 6, 12 bits of the hash, overlapping)',params={'ops':3},tparams={'ops':4},reach=['map'])
unit('H02','h02_fault','h_pool.c','U_GH','the same with a failure of memory anywhere',params={'ops':2,'faults':2},tparams={'ops':3,'faults':2},reach=['map','failed','refused'])
unit('H02','h02_deep','h_pool.c','U_GH','keys colliding in 24 bits: the table reaches its largest level',params={'ops':1,'deep':1},tparams={'ops':2,'deep':1},reach=['map','failed'],time=120)
unit('H02','h02_many','h_pool.c','U_GHM','n keys in four strides',params={'n':3000},tparams={'n':50000},reach=['many'])
unit('H02','h02_any','h_pool.c','U_GHS','n arbitrary 64-bit keys and values and any key looked up',params={'n':2},tparams={'n':3},reach=['any'])
unit('H02','h02_set','h_pool.c','U_DH','sets of six capacities, five families of keys, failures of memory',reach=['set'])
unit('H02','h02_full','h_pool.c','U_DHF','a set filled beyond its capacity, three families of keys',reach=['full','end'])
unit('H02','h02_size','h_pool.c','U_SIZE','every 64-bit capacity',reach=['sized','unsupported'])
SV=DB+['Server/dserve_util.c','Server/dserve.c']
SRC_DEFS['Server/dserve.c']=['-Dmain=dserve_main','-Drun_server=ws_run_server']
def srv(prop,name,defs,bounds,**k): unit(prop,name,'s_serv.c',defs,bounds,srcs=SV,**k)
srv('S01','s01_dec','U_DEC','every text of up to max bytes, decoded in place or elsewhere',params={'max':5},tparams={'max':7},reach=['decoded'])
srv('S01','s01_hex','U_HEX','every byte escaped in upper and lower case digits',reach=['hex'])
srv('S01','s01_query','U_QUERY','every request of up to max characters over five',params={'max':6},tparams={'max':8},reach=['split','refused'])
srv('S01','s01_qany','U_QANY','two pairs of names of 1..2 and values of 0..3 arbitrary bytes',reach=['two'])
srv('S01','s01_many','U_QMANY','95 to 104 parameters',reach=['many','refused'])
srv('S01','s01_val','U_VAL','twenty texts and every text of 1..digits bytes as values of nine types',params={'digits':2},tparams={'digits':4},reach=['value','refused','rec'])
srv('S01','s01_cond','U_COND','every name of a comparison or type with any character changed',reach=['cond'])
srv('S02','s02_space','U_SPACE','buffers of five sizes filled to nine levels, fourteen needs, with and without failures of memory',reach=['room','none'])
srv('S02','s02_str','U_STR','texts and blobs of 0..max arbitrary bytes in four escapings',params={'max':3},tparams={'max':4},reach=['text'])
srv('S02','s02_rec','U_REC','records of fields fields of 17 kinds, four escapings, ids shown or not, buffers of four sizes and three fills',params={'fields':2},tparams={'fields':3},reach=['answer'])
srv('S02','s02_fault','U_REC','the same with faults failures of memory',params={'fields':1,'faults':2},tparams={'fields':2,'faults':3},reach=['answer','failed'])
srv('S02','s02_num','U_NUM','twelve extreme and all integers up to 999',reach=['int'])
srv('S02','s02_nest','U_NEST','three records referring to any of each other, shown to every depth below depth, with a failure of memory',params={'depth':6},tparams={'depth':14},reach=['nested','failed'])
srv('S03','s03_auth','U_AUTH','arbitrary two-byte address, token and database, seven lists of 0..1 arbitrary two-byte entries, three levels, server, cgi or command line',reach=['decided'])
for i in range(7): srv('S03','s03_auth%d'%(i+1),'U_AUTH','the same with two entries in list %d'%(i+1),params={'two':i+1},reach=['decided'],thorough_only=True)
srv('S03','s03_conf','U_CONF','files of 1..lines lines of 14 kinds, with and without a final newline',params={'lines':3},tparams={'lines':4},reach=['conf'])
srv('S03','s03_end','U_CONFANY','n arbitrary bytes at the end of a file, alone or at the end of a full buffer',params={'n':3},tparams={'n':4},reach=['any'])
srv('S03','s03_big','U_CONFBIG','files of twelve sizes up to 590000 bytes',reach=['big'])
srv('S03','s03_many','U_CONFMANY','lists of up to 41 values',reach=['many'])
def req(name,defs,bounds,prop='S04',**k): unit(prop,name,'s_req.c',defs,bounds,srcs=SV,**k)
req('s04_req','U_REQ','up to recs records with numbers of two values, references among them and a deleted one; four operations, none to two conditions of six comparisons with every value of digits digits, every from and count of one digit',params={'recs':2,'digits':1},tparams={'recs':3,'digits':2},reach=['answered'])
req('s04_fmt','U_FMT','known and unknown values of format, showid, escape, jsonp, depth and further parameters, references and cycles of two records',reach=['answered','refused'])
req('s04_ids','U_IDS','lists of 1..ids ids of records, of deleted records, of other places or junk; three operations',params={'ids':3},tparams={'ids':4},reach=['answered'])
req('s04_anyid','U_ANYID','every number of digits digits as a record id or as a value of type record',params={'digits':6},tparams={'digits':7},reach=['found','none','refused'])
req('s04_lock','U_LOCK','another participant holding one or two read locks or a write lock, four operations, three kinds of searches',reach=['locked','shared'])
req('s04_fault','U_FAULT','faults failures of memory or attaching anywhere in three operations on one or two records',params={'faults':1},tparams={'faults':2},reach=['failed','answered'])
req('s04_jsonp','U_JSONP','jsonp names of 26 lengths up to 1950 bytes',reach=['answered','error'])
req('s04_many','U_MANY','answers of 1..recs records with texts of 18 lengths',params={'recs':12},tparams={'recs':40},reach=['answered'])
req('s04_err','U_ERR','1..bytes arbitrary bytes in place of an operation, the name of a parameter, or one of five values',params={'bytes':2},tparams={'bytes':3},reach=['refused'])
req('s04_bad','U_BAD','27 malformed requests',reach=['refused'])
req('s04_badf','U_BAD','27 malformed requests with a failure of memory anywhere',params={'faults':1},reach=['refused'])
req('s04_admin','U_ADMIN','creating and dropping with ten sizes, limits, defaults, and permitted databases',reach=['created','notcreated','dropped','notdropped'])
req('s04_adminf','U_ADMIN','the same with a failure of memory or attaching anywhere',params={'faults':1},reach=['created','notcreated','dropped','notdropped'])
req('s04_cmd','U_CMD','command line, cgi get and cgi post (complete or cut) requests of six lengths',reach=['answered','refused'])
req('s03_req','U_AUTH','eight requests by readers, writers, administrators and strangers known by address or token, three sets of permitted databases',prop='S03',reach=['allowed','refused'])
SH=SV+['Server/dserve_net.c']
def http(name,defs,bounds,**k): unit('S05',name,'s_http.c',defs,bounds,srcs=SH,**k)
http('s05_http','U_SEQ','every sequence of requests requests of twenty kinds (complete, cut, malformed, reset) answered by one thread of the pool',params={'requests':2},tparams={'requests':3},reach=['done'])
http('s05_pieces','U_SEQ','one request arriving and its answer leaving with pieces partial transfers and intr interruptions anywhere',params={'requests':1,'pieces':2,'intr':1,'broken':1,'resets':0},tparams={'requests':1,'pieces':3,'intr':2,'broken':1},reach=['done'])
http('s05_any','U_ANY','up to bytes arbitrary bytes after six beginnings of a request',params={'bytes':2},tparams={'bytes':3},reach=['answered'])
http('s05_long','U_LONG','request lines, header lines, numbers of headers and posted data of ten sizes around the limits',reach=['answered'])
http('s05_pool','U_POOL','1 to 105 connections, two threads running at free points or not at all before the end',params={'free':2},tparams={'free':4},reach=['served','overflow'])

RS=DB+['Reasoner/'+f+'.c' for f in 'build clstore clterm derive glb mem printerrutils rgenloop subsume unify'.split()]+['Printer/dbotterprint.c']
RK=dict(srcs=RS,conf='reasoner')
unit('U01','u01_pair','u_term.c','U_PAIR','all pairs of terms of depth up to depth with compounds of up to width parts over vars variables and consts kinds of constants (arbitrary numbers, names)',params={'depth': 2, 'width': 1, 'vars': 3, 'consts': 2},tparams={'depth': 2, 'width': 2, 'vars': 2, 'consts': 2},reach=['unify','nounify'],**RK)
unit('U01','u01_wide','u_term.c','U_PAIR','all pairs of terms whose compounds have up to width parts',params={'depth':1,'width':2,'vars':3,'consts':2},tparams={'depth':1,'width':3,'vars':3,'consts':2},reach=['unify','nounify'],**RK)
unit('U01','u01_atom','u_term.c','U_ATOM','all pairs of atoms of two or three arguments, each a variable (of three), a number or a compound',params={'args': 3, 'depth': 1, 'depth2': 0},tparams={'args': 3, 'depth': 1, 'depth2': 1},reach=['unify','nounify'],**RK)
unit('U02','u02_const','u_term.c','U_CONST','all pairs over 38 constants of every stored type (arbitrary 64-bit numbers and doubles), alone, against a compound, inside compounds',reach=['equal','match','nomatch'],**RK)
unit('U02','u02_mix','u_term.c','U_MIX','each of those against a compound or a variable in either order',reach=['match','nomatch','unify','nounify'],**RK)
unit('U02','u02_pair','u_term.c','U_PAIR','all pairs of terms of depth up to depth with compounds of up to width parts',params={'depth': 2, 'width': 1, 'vars': 3, 'consts': 3},tparams={'depth': 2, 'width': 2, 'vars': 2, 'consts': 2},reach=['equal','match','nomatch'],**RK)
unit('U03','u03_pair','u_sub.c','U_PAIR','all pairs of clauses (facts, rules) of up to l1 and l2 literals, two signs, arguments: variables, a constant, a compound',params={'l1': 2, 'l2': 3, 'vars': 2},tparams={'l1': 3, 'l2': 3, 'vars': 2},reach=['subsumed','not'],**RK)
unit('U03','u03_long','u_sub.c','U_LONG','all pairs of clauses of l1 and l2 literals',params={'l1': 3, 'l2': 3, 'vars': 2},tparams={'l1': 3, 'l2': 4, 'vars': 2},reach=['subsumed','not'],**RK)
RQ=RS+['Reasoner/rmain.c']
unit('U04','u04_ground','u_res.c','','every set of clauses clauses of up to lits literals over two predicates and cons constants',srcs=RQ,conf='reasoner',params={'clauses':3,'lits':2,'cons':1},tparams={'clauses':4,'lits':2,'cons':1},reach=['proof','noproof'])
unit('U04','u04_names','u_res.c','','sets of clauses with a predicate named by a text, seven numbers, null, a character, a name with a prefix, an xml literal',srcs=RQ,conf='reasoner',params={'clauses':2,'lits':1,'cons':1,'kinds':8},tparams={'clauses':2,'lits':2,'cons':1,'kinds':8},reach=['proof','noproof'])
unit('U04','u04_vars','u_res.c','','every set of clauses clauses of up to lits literals (long of them; the others one) over two predicates, vars variables, cons constants',srcs=RQ,conf='reasoner',params={'clauses':3,'lits':2,'long':1,'cons':2,'vars':1},tparams={'clauses':3,'lits':2,'long':2,'cons':1,'vars':1},reach=['proof','noproof'])
unit('U04','u04_binary','u_res.c','','clauses over one predicate of two arguments',srcs=RQ,conf='reasoner',params={'clauses':2,'lits':2,'long':1,'cons':1,'vars':2,'arity':2,'preds':1},tparams={'clauses':2,'lits':2,'cons':1,'vars':2,'arity':2,'preds':1},reach=['proof','noproof'])
unit('U04','u04_hash','u_term.c','U_HASH','pairs of constants of every type, arbitrary 64-bit numbers and doubles within two million',reach=['hash','equal'],**RK)
