SETUP=''
NA={}
_T='Also at every size up to the stated one: numbers of documents, indexes, clauses, stages, operations and collections, lengths of names and values (small ones all, then the neighbours of each power of two). Trusted: the reference model (harness/src/model.rs), RocksDB itself. '
C['P06']=(SEQ,'model_checking','Every sequence up to the stated depth over an alphabet of failing and succeeding statements, in automatic and explicit transactions; state compared with the model after every step. '+_T,'')
C['P10']=(SEQ,'model_checking','Every sequence up to the stated depth; after every step every value of the alphabet is looked up through every index and the result compared with the model. '+_T,'')
C['P11']=(SEQ,'model_checking','Every sequence of index creations, drops and document operations up to the stated depth. '+_T,'')
C['P21']=(SEQ,'model_checking','Every sequence up to the stated depth on two collections, plus every pair of unusual names. '+_T,'')
C['P12']=(INP,'exploration','Every filter of a grammar up to the stated nesting over documents with values of every type, on collections with documents, without any, and which do not exist; every regular expression of an alphabet up to three characters (thorough: four) with the sets of options on every text up to three. '+_T,'')
C['P03']=(SEQ,'model_checking','Every history up to the stated depth of statements, transactions with every way of ending, and reopenings; after closing and opening, all contents, names, index answers and uniqueness are compared with the model, and the database is used and reopened again. '+_T,'')
C['P04']=(SEQ,'model_checking','Every interleaving, up to the stated depth, of the statements and ends of two transactions on disjoint documents with statements outside; after every step what each of the three sees is compared with the model. '+_T,'')
C['P33']=(SEQ,'model_checking','Every order, up to the stated depth, of using and dropping the database and each kind of handle, with reopening attempts in between; every spelling of the path and kind of owner for a second opening. '+_T,'')
for _i,_s in {'P13':'Every filter of a grammar over documents with values of every type, with and without each index, at top level and in transactions.','P14':'Every update document of a grammar (operators x operands of every type x documents).','P15':'Every combination of filter, statement and contents of the alphabet, answers checked against the difference of the contents.','P16':'Every filter shape and update of the grammar, on empty and matching contents, followed by a repetition.','P17':'Every filter and deletion of the grammar on every kind of collection, existing or not, at top level and in transactions, and repeated.','P18':'Every list of documents of the grammar (identifier of every type, absent, null, doubled, refused), one by one and in batches.','P19':'Every sort, skip and limit combination over contents with values of every type.','P20':'Every pipeline up to the stated length over an alphabet of stages.','P22':'Every value of every BSON type at every position, through every way of writing and reading.','P23':'Every pair of values of the alphabet as identifiers, indexed values and collection names.','P24':'Every cursor kind, position and pair of events.','P25':'Every call of a grammar of malformed and unusual arguments on every kind of collection; no panic, crash or hang, and the database is usable afterwards.'}.items(): C[_i]=(INP,'exploration',_s+' '+_T,'')
CON='stateless model checking of the real code: exhaustive exploration of thread schedules under a cooperative scheduler (sleep sets without a preemption bound, then every schedule up to a preemption bound)'
_c=' Every history executed is explained, or not, by a search over all orders of its statements and commits; final contents, counts, index answers and names are compared.'
C['P05']=(CON,'model_checking','Every schedule of every writer of the alphabet against every reader, two and three threads, with and without indexes, including appearing and disappearing collections and indexes.'+_c,'')
C['P07']=(CON,'model_checking','Every schedule of every pair (and triples) of inserts, batch inserts, upserts, deletes and transactions on the same identifiers, including while the collection is created, dropped and indexed.'+_c,'')
C['P08']=(CON,'model_checking','Every schedule of every pair (and triples) of updates, deletes, inserts and transactions on the same documents, and of two threads sharing one transaction.'+_c,'')
C['P09']=(CON,'model_checking','Every schedule of every pair (and triples) of writers of equal values under a unique index, with index creation and removal meanwhile; P10 and P11 enumerate the sequential histories.'+_c,'')
CRASH='exhaustive enumeration of crash points of the real code: every prefix of the recorded file operations x every loss or tearing of unsynced data, each image opened with the real code and compared with the model'
C['P01']=(CRASH,'model_checking','Every history of the alphabet up to the stated depth (and, for a few, a second crash at every point of the recovery); what is found must be the state after all acknowledged statements, or also the one in progress.','')
C['P02']=(CRASH,'model_checking','Every history of transactions, multi-document statements and definitions up to the stated depth; what is found must be the state after a whole number of commits.','')
C['P26']=('exhaustive fault injection into the real code: every file operation of every history failing, once, from then on, or in the middle of a write, compared with the model','model_checking','Every statement and pair of statements of the alphabet, transactions and reopenings included, on a database in its log only and one in several blocks of a table file; answers, the live contents and the contents after opening again must be those of one of the states which the answers allow. Not covered: ENOSPC, for which RocksDB has a recovery thread of its own.','')
SRV='exhaustive exploration of the real server process over its wire protocol: every sequence of commands up to a depth, each reply and the data compared with a model'
C['P27']=(SRV,'model_checking','Every pair of 74 commands (37 refused in one way each) on alternating connections and sent at once, every triple of those which may succeed (thorough: every triple); values nested up to 180 levels; candidate states of the model judge each reply, both connections read the data at the end; messages up to the size the server announces.','core server')
C['P28']=(SRV,'model_checking','Every sequence of opening, reading and killing up to three cursors with batches of 1, 2, 3 and the default, then each cursor read to its end; collections around each batch size, also sorted, aggregated and in a transaction.','core server')
C['P29']=(SRV,'model_checking','Every sequence up to the bound of statements, commits and aborts of two sessions and of clients without a session, an observer after each step, the sessions used again at the end, and the server killed with a transaction open.','core server')
C['P30']=('exhaustive enumeration of malformed messages against the real server process','model_checking','Every truncation, every value of every byte and every length at every offset of eight messages (thorough: pairs of bytes), on a server limited to 1.5 GiB of addresses, with another connection checked after each; values nested up to 100000 levels; more connections than the process may have files.','core server')
C['P31']=('bounded exhaustive enumeration of values, filters and operation sequences through the real binding in a Python interpreter, against a reference model','model_checking','Every value of a family (limits of integers, floats, text, bytes, containers, times, and values no database holds) in every place of a document, as _id and under every filter operator; every type the library can write, read through the binding; every wrong argument of every method; nested and self-containing values; every sequence of statements and every sequence of opening, entering, leaving and keeping handles up to the bound. Trusted: CPython, pyo3. Left open: types Python has no value for (Decimal128, code with scope).','core python')
C['P32']=('bounded exhaustive enumeration of inputs on the real code; each difference is parsed and applied','model_checking','Every pair of texts up to five lines over three kinds of lines and eight over two (thorough: six and nine), odd lines which look like parts of a difference, and moved, doubled and removed blocks of a longer text; the number of changed lines is compared with the edit distance.','')
