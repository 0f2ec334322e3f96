#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of its text)."""
import json, os
C='src/polodb_core/'
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
TX=[C+'transaction/transaction_inner.rs',C+'db/rocksdb_transaction.rs',C+'db/db_inner.rs']
p('P01','Acknowledged writes survive any crash',
 'Once a write outside a transaction, or the commit of a transaction, has returned success, its effect is present after the process or the machine stops at any later point and the database is opened again. Opening after a crash succeeds without repair.',
 ['histories','crash_points'],'every history of writes up to the bound, every point of its storage operations, every loss of unsynced data',
 'The tests never stop a process between two storage operations and never drop unsynced data.',
 [C+'db/rocksdb_transaction.rs',C+'db/rocksdb_wrapper.rs',C+'coll/collection.rs'],
 [('synchronous commit of the write-ahead log','RocksDBTransactionInner::new write options'),('commit before a statement returns','coll/collection.rs try_db_op')])
p('P02','A crash leaves all of a transaction or none of it',
 'After a crash at any point the database holds exactly the effects of a prefix of the commits, each of them whole: no document, index entry or collection of a transaction or of a statement with many documents is present without the others.',
 ['histories','crash_points'],'every history of transactions and multi-document statements up to the bound, every crash point, every loss or tearing of unsynced data',
 'The tests never crash in the middle of a commit.',TX,
 [('one write batch per commit','RocksDBTransactionInner::commit'),('index entries and documents in the same transaction','db_inner.rs insert_one_with_meta')])
p('P03','A reopened database is the database which was closed',
 'After the database is closed and opened again, every collection, index, document, uniqueness rule and query answer is what it was, whatever the history before, and a transaction which was not committed has left nothing.',
 ['histories','configurations'],'every history of operations up to the bound, with a reopening at every position',
 'A few tests reopen one database after one insert.',
 [C+'db/rocksdb_wrapper.rs',C+'db/db_inner.rs',C+'coll/collection_info.rs'],
 [('collection specifications are stored with the data','db_inner.rs update_collection_spec'),('flush on close','RocksDBWrapperInner::drop')])
p('P04','A transaction is all or nothing and reads its own writes',
 'Within a transaction every read sees all the earlier writes of the transaction, nobody else sees any of them before the commit, and the commit publishes all of them. Rolling back the transaction, or dropping its last handle, leaves no trace, and no write is accepted once it has been committed or rolled back.',
 ['histories'],'every sequence of statements, commits and rollbacks of one transaction, with reads inside and outside after every step, up to the bound',
 'The tests commit or roll back one insert or two.',TX+[C+'coll/txn_collection.rs'],
 [('all statements of a transaction share one storage transaction','transaction.rs Transaction::collection'),('statements are refused once it has ended','TransactionInner::run_statement')])
p('P05','Readers see committed states only, each statement one of them',
 'Whatever the interleaving of threads, a read outside a transaction returns exactly what a single committed state contains: never an uncommitted write, never part of a commit, and never a state older than a commit which had returned before the read began.',
 ['schedules'],'every interleaving of the storage operations of two or three threads up to the preemption bound',
 'The only concurrent test inserts from several threads and counts at the end.',
 [C+'db/rocksdb_transaction.rs',C+'db/rocksdb_iterator.rs',C+'vm/vm.rs',C+'db/db_inner.rs'],
 [('all the reads of a statement use one snapshot','TransactionInner::at_snapshot')])
p('P06','A statement which fails changes nothing',
 'When a write statement returns an error, for whatever reason and at whatever document it failed, the data, the indexes and the collections are what they were before it, both outside a transaction and inside one, and the transaction can go on.',
 ['histories','inputs'],'every history up to the bound over statements which fail at the first, a middle or the last document',
 'No test looks at the data after a failed multi-document statement inside a transaction.',TX,
 [('a savepoint around each statement','TransactionInner::run_statement'),('rollback of the implicit transaction','coll/collection.rs try_db_op')])
p('P07','No two documents of a collection ever share an identifier',
 'In every collection at most one document has a given identifier, whatever the concurrent inserts, upserts and transactions; an insert whose identifier is taken fails with a duplicate key error, and one whose identifier is free does not.',
 ['schedules','histories'],'every interleaving of inserts, deletes, upserts and transactions by two or three threads up to the preemption bound; every sequential history up to the bound',
 'The tests insert one duplicate sequentially.',
 [C+'db/db_inner.rs',C+'db/rocksdb_transaction.rs'],[('the identifier is locked, then looked up','db_inner.rs insert_one_with_meta')])
p('P08','Concurrent writes to a document are never lost',
 'When threads concurrently insert, update and delete single documents, with or without transactions, the results and the final state are those of some order of the successful statements and transactions. No increment, array addition or deletion which reported success disappears, and a transaction waiting for another ends with a result or an error.',
 ['schedules'],'every interleaving of the storage operations of two or three threads of one to three statements up to the preemption bound',
 'The tests update from one thread only.',
 [C+'vm/vm.rs',C+'cursor.rs',C+'db/db_inner.rs'],[('documents are locked and compared before they are changed','vm.rs lock_current'),('the statement is run again when they have changed','db_inner.rs run_with_retry')])
p('P09','A unique index never admits two equal values',
 'While a unique index exists, no two documents of the collection hold equal values of its field, whatever the sequence or interleaving of inserts, updates, deletes, rollbacks and index creations; a value freed by a delete or an update can be used again.',
 ['schedules','histories'],'every sequential history up to the bound, and every interleaving of two or three threads up to the preemption bound',
 'The tests insert one duplicate into one index.',
 [C+'index/index_helper.rs',C+'index/index_builder.rs',C+'vm/codegen.rs'],[('the value is locked and looked up before it is entered','index_helper.rs check_unique_key')])
p('P10','Every index agrees with the documents at all times',
 'After every operation, commit or rollback, an index lookup finds exactly the documents which hold the value: inserts, updates of any kind, upserts, deletes and drops leave neither a missing nor a stale entry.',
 ['histories'],'every sequence of document and index operations up to the bound, probed by lookups of every value after every step',
 'The tests look at a few entries after one insert or delete.',
 [C+'index/index_helper.rs',C+'index/index_builder.rs',C+'vm/codegen.rs',C+'vm/vm.rs'],[('entries are removed and added around each change of a document','codegen.rs update and delete programs')])
p('P11','Indexes can be created and dropped at any moment',
 'Creating an index on any collection content gives the same answers and enforces the same uniqueness as having had it from the start, and is refused without effect when the content breaks it or its name is that of a different index. Dropping an index removes its rule and all of its entries, so that it can be created again with different options.',
 ['histories','inputs'],'every sequence of index creations, drops and document operations up to the bound',
 'The tests create each index once on an empty or small collection.',
 [C+'db/db_inner.rs',C+'index/index_builder.rs'],[('existing documents are entered or removed one by one','index_builder.rs execute')])
p('P12','A query selects exactly the documents its filter describes',
 'For every filter built from the documented operators, at any nesting, a query returns exactly the documents for which the documented meaning of the filter is true, and a malformed filter is refused with an error.',
 ['programs','inputs'],'every filter up to the bound of operators and nesting, over documents with values of every type, missing fields, arrays and nested documents',
 'The tests try one or two filters per operator on homogeneous data.',
 [C+'vm/codegen.rs',C+'vm/query_matcher.rs',C+'vm/vm.rs',C+'utils/bson.rs'],[('filters are compiled to a program run on each document','codegen.rs emit_query'),('one order of values','utils/bson.rs value_cmp')])
p('P13','How documents are reached never changes the answer',
 'The same filter selects the same documents through every reading, counting, updating and deleting operation, inside and outside a transaction, alone or as the first stage of an aggregation, and whether the collection has an index on the fields, several or none.',
 ['programs','configurations'],'every filter of the family on every indexed and unindexed copy of the data through every operation',
 'The tests use an index in a handful of queries and never compare access paths.',
 [C+'vm/codegen.rs',C+'vm/subprogram.rs',C+'vm/vm.rs'],[('choice of an index or of an identifier lookup','codegen.rs emit_query_layout')])
p('P14','Each update operator does exactly what it documents',
 'For every update operator, operand and document, the stored document afterwards is the documented result: other fields, their order and the identifier are untouched, and an operator which cannot apply is refused with an error and changes nothing.',
 ['programs','inputs'],'every operator and pair of operators with operands and fields of every type, missing fields included',
 'The tests try one or two values per operator.',
 [C+'vm/codegen.rs',C+'vm/vm.rs',C+'vm/subprogram.rs'],[('updates are compiled to a program run on each document','subprogram.rs compile_update')])
p('P15','An update changes the documents it should and counts them right',
 'Updating many changes every document the filter selects, once each and no other; updating one changes exactly one of them if there is any. The matched count is their number, and the modified count lies between the number of documents which differ afterwards and the matched count.',
 ['inputs','programs'],'every subset of the document universe with every filter and update of the family',
 'The tests count one or two updates.',
 [C+'vm/codegen.rs',C+'vm/subprogram.rs',C+'db/db_inner.rs'],[('one pass over the selected documents','subprogram.rs compile_update')])
p('P16','An upsert inserts only when nothing matched',
 'An upsert with a match is exactly an update and inserts nothing; without a match it inserts exactly one document, made of the equality conditions of the filter and the fields which the update sets, or is refused with an error and changes nothing. A second identical upsert then matches what the first inserted.',
 ['inputs','histories'],'every filter, update and collection content of the family, repeated',
 'Two tests upsert one document.',
 [C+'db/db_inner.rs'],[('filter and $set are merged into the new document','db_inner.rs merge_query_and_update')])
p('P17','A delete removes exactly what it selects',
 'Deleting many removes every document the filter selects and nothing else, deleting one removes exactly one of them if there is any, the returned count is the number removed, and deleting from a collection which does not exist removes and creates nothing.',
 ['inputs','histories'],'every subset of the document universe with every filter of the family, on indexed and unindexed collections',
 'The tests delete in one or two fixed contents.',
 [C+'db/db_inner.rs',C+'vm/subprogram.rs',C+'vm/codegen.rs'],[('one pass which deletes at the cursor','subprogram.rs compile_delete')])
p('P18','Inserts store every document under the identifier they report',
 'An insert keeps the identifier of a document or gives it a fresh one, reports for each position the identifier under which the document can be found, and stores all the documents of the call or, with an error, none of them.',
 ['inputs','histories'],'every list of documents up to the bound with given, missing, null, duplicate and invalid identifiers',
 'The tests insert valid documents and count them.',
 [C+'db/db_inner.rs'],[('the identifier is fixed, checked and stored','db_inner.rs insert_one_with_meta, fix_doc')])
p('P19','Sort, skip and limit shape the result and nothing else',
 'A query with sort, skip and limit returns the selected documents ordered by the sort keys in one total order of all values, stable for equal keys, without the first skipped ones and no more than the limit, each document once and unaltered.',
 ['programs','inputs'],'every combination of sort keys, directions, skips and limits of the family over contents with values of every type',
 'The tests sort one field of one type.',
 [C+'vm/vm_sort.rs',C+'vm/vm_skip.rs',C+'vm/vm_limit.rs',C+'action/find.rs'],[('stages run on each row in turn','vm.rs external functions')])
p('P20','An aggregation is the composition of its stages',
 'The result of a pipeline is what each documented stage yields on the result of the stages before it, for every pipeline including repeated, empty and adjacent stages, and an unknown or malformed stage is refused with an error.',
 ['programs','inputs'],'every pipeline up to the bound of stages from the family, over every content of the family',
 'The tests run pipelines of one or two stages on one content.',
 [C+'vm/subprogram.rs',C+'vm/vm_group.rs',C+'vm/vm_sort.rs',C+'vm/vm_skip.rs',C+'vm/vm_limit.rs',C+'vm/vm_add_fields.rs',C+'vm/vm_unset.rs',C+'vm/vm_count.rs'],[('each stage is a function called per row and once at the end','vm_external_func.rs')])
p('P21','Collections are separate and have a clean life cycle',
 'What is done to one collection never shows in another, whatever their names; a collection is listed from its creation or first insert until it is dropped, and dropping it removes all of its documents, indexes and rules, so that a new collection of the name starts empty.',
 ['histories','inputs'],'every sequence of operations up to the bound on two collections, and every pair of unusual names',
 'The tests use one collection with a plain name.',
 [C+'db/db_inner.rs',C+'utils/bson.rs'],[('the name is a terminated prefix of every key','utils/bson.rs stacked_key'),('names are checked','db_inner.rs validate_col_name')])
p('P22','A stored value comes back as it was',
 'Every document of every supported value type, at every nesting and at the limits of each type, is returned by every read exactly as it was stored: same types, same bits, same order of fields.',
 ['inputs'],'every value of the alphabet of all the types and their limits in every position: field, nested field, array element, indexed field',
 'The tests store strings, integers and one large binary.',
 [C+'db/db_inner.rs',C+'vm/vm.rs'],[('documents are stored in their standard encoding','db_inner.rs insert_one_with_meta')])
p('P23','Different identifiers are different documents',
 'Any two identifiers which differ in type or value name different documents, each of which is found, updated and deleted by its own identifier and by no other; a value which cannot be an identifier is refused on insert.',
 ['inputs'],'every pair of identifiers of the alphabet: all types, limits, prefixes of each other, embedded separators',
 'The tests use object identifiers and small integers.',
 [C+'utils/bson.rs',C+'cursor.rs',C+'vm/vm.rs'],[('an injective prefix-free encoding of identifiers','utils/bson.rs stacked_key_bytes')])
p('P24','A cursor yields every result once, then ends',
 'A cursor yields each selected document exactly once and then ends for good, whatever happens after it was opened: other writes, a commit or rollback, a drop of the collection, the database handle or the transaction going away. A cursor which cannot go on reports an error instead of ending early or crashing, and dropping it at any position has no effect on the database.',
 ['histories'],'every interleaving of cursor steps with writes, commits, rollbacks and drops up to the bound',
 'The tests read cursors to the end with nothing happening in between.',
 [C+'db/client_cursor.rs',C+'db/rocksdb_iterator.rs',C+'vm/vm.rs'],[('a cursor keeps its storage transaction and detects its end','rocksdb_iterator.rs RocksDBIteratorInner')])
p('P25','No input makes the library panic or corrupt',
 'Every call with any filter, update, pipeline, document, name or option, nested no deeper than the stack of the calling thread allows, returns a result or an error: it never panics, aborts or runs forever, and an error leaves the database usable.',
 ['inputs','programs'],'every operator position filled with every value of the alphabet, and every operation with every name and option of the alphabet',
 'The tests give invalid input to a few operators.',
 [C+'vm/codegen.rs',C+'vm/vm.rs',C+'vm/subprogram.rs',C+'db/db_inner.rs'],[('operands are checked at compilation','codegen.rs, subprogram.rs'),('typed errors','errors.rs')])
p('P26','A storage fault is reported and never corrupts the data',
 'When a file operation fails at any point, the statement which needed it returns an error instead of success or a partial answer, the process does not crash, and after the fault has gone and the database is opened again it holds every acknowledged write and nothing unacknowledged in part.',
 ['fault_sequences','histories'],'every file operation of the histories failing once or from then on, with each error of the family',
 'No test makes a file operation fail.',
 [C+'db/rocksdb_transaction.rs',C+'db/rocksdb_iterator.rs',C+'cursor.rs',C+'db/rocksdb_wrapper.rs'],[('errors of the storage are passed on','check_err! and RocksDBIterator::error')])
S='src/polodb/'
p('P27','The server answers each command as the library would',
 'For every sequence of commands sent to the server, each gets one reply which names that command as the one it answers, and reply and data afterwards are what the same operation gives through the library; a failing command gets an error reply and the connection goes on.',
 ['histories','programs'],'every sequence of commands of the family up to the bound on one and two connections',
 'Seven tests send one or two commands each through a driver which tolerates much.',[S+'main.rs',S+'handlers/',S+'reply.rs'],[('one handler per command, chosen by its first matching key','src/polodb/handlers/mod.rs make_handlers'),('every error becomes a reply','src/polodb/main.rs handle_message')])
p('P28','Server cursors deliver every document exactly once',
 'A query through the server delivers each selected document exactly once over its first batch and the following ones, whatever the batch sizes, and other cursors opened, read or exhausted in between; a finished or unknown cursor is reported as such.',
 ['histories'],'every interleaving of the steps of up to three cursors with every batch size of the family',
 'One test reads 1000 documents, one drops a cursor.',[S+'app_context.rs',S+'handlers/find_handler.rs',S+'handlers/get_more_handler.rs',S+'handlers/kill_cursors_handler.rs'],[('open cursors are kept by number','AppContext::save_cursor'),('a batch ends without losing a document','consume_first_batch and GetMoreHandler::mk_cursor_doc')])
p('P29','Server transactions are isolated by session',
 'Commands with a session and a transaction take effect only when the transaction is committed and not at all when it is aborted or the server stops before that, and no other session sees or joins them.',
 ['histories'],'every sequence of the transaction commands and statements of two sessions up to the bound',
 'One test commits and aborts a transaction, and looks at nothing afterwards.',[S+'session_context.rs',S+'main.rs',S+'handlers/commit_transaction.rs',S+'handlers/abort_transaction.rs'],[('transactions are kept by session','AppContext::create_session'),('statements of a session use its transaction','the handlers')])
p('P30','Malformed messages cannot take the server down',
 'Any bytes on a connection, well formed, truncated or hostile, end in an error reply or in the closing of that connection only: the server keeps serving the others, and its memory does not grow by what a length field claims.',
 ['inputs'],'every mutation of the family of every message: each truncation, each header field at each limit, each command document with missing and mistyped fields',
 'No test sends a malformed message.',[S+'wire/message.rs',S+'wire/header.rs',S+'bson_util.rs',S+'main.rs'],[('messages are parsed and checked before they are used','Message::read_from'),('one task per connection','start_socket_server')])
p('P31','The Python binding is the library',
 'Every operation, value and error through the Python binding gives what the library gives: every value Python and the database share round-trips with its type, anywhere in a document, and other values are refused; filters, updates, deletions and pipelines select and change the same documents, answers and counts agree, errors are exceptions which change nothing, values of any depth and handles outliving their database included, and the database is closed and opened again as a with statement says.',
 ['programs','inputs'],'every operation of the binding with every value and filter of the family',
 'Eight tests use one document each.',['py-polodb/src','py-polodb/polodb'],[('conversion of values between Python and the library','py-polodb/src/helper_type_translator.rs')])
p('P32','The line diff reproduces both texts',
 'For every two texts, the reported difference, applied to the first at the reported positions, gives the second; equal texts give no difference, no lines of either are invented, lost or reordered, and no more lines are reported than have to change.',
 ['inputs'],'every pair of texts up to the bound of lines over a small alphabet of lines',
 'The tests compare two pairs of texts.',['src/polodb_line_diff'],[('longest common subsequence','src/polodb_line_diff')])
p('P33','One owner per database, and handles fail safely without it',
 'While a database is open no other handle or process can open it, and once it is closed anyone can; a handle to a collection, transaction or cursor which outlives the database returns an error or finishes its own work but never crashes, loses or corrupts anything.',
 ['histories','configurations'],'every order of opening, using and dropping databases, transactions, cursors and collections up to the bound, within one process and between two',
 'One test opens a second handle.',
 [C+'db/db.rs',C+'db/rocksdb_wrapper.rs',C+'transaction/transaction.rs',C+'coll/collection.rs'],[('the storage lock','RocksDBWrapperInner::open'),('weak handles','Collection and Transaction'),('transactions keep the storage open','TransactionInner')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
