HOOKS = None
NOT_APPLICABLE = []
L = 'crates/bonsaidb-local/src/'
K = 'crates/bonsaidb-core/src/'
MC_SEQ = 'explicit-state model checking: every edge of a finite model replayed on the real code'
MC_SCHED = 'stateless model checking of the real code under a controlled scheduler'
def P(id, title, statement, over, quant, why, files, mech, technique, note, level='model_checking', **k):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                mech=mech, technique=technique, level=level, note=note, **k)
PROPS = [
 P('C01', 'Transactions are atomic and follow the document model',
  'Applying a transaction performs its operations in order on the collections they name: insert (explicit or assigned id), update, overwrite, delete and check behave as documented, including revision numbers and the exact conflict or not-found error. If any operation fails, nothing of the transaction takes effect.',
  ['inputs', 'histories'], 'every reachable state of a small document model and every 1- and 2-operation transaction from it, in one and in several collections',
  'Tests try a handful of transactions; partial effects and revision bookkeeping depend on the state and on which operation fails.',
  [L+'database.rs', K+'transaction.rs'], [('apply_transaction', L+'database.rs'), ('revision rules', K+'document/revision.rs')],
  MC_SEQ, 'Exhaustive within the model (ids, contents and transaction length are bounded); answers and stored documents are compared after every edge.'),
 P('C02', 'Concurrent transactions are linearizable',
  'When several threads insert, update, overwrite or delete documents at the same time, every call returns and the results are those of some one-at-a-time order of the calls. In particular, of several updates of the same revision exactly one succeeds and the others report a conflict, and no acknowledged change is lost.',
  ['schedules'], 'all interleavings (bounded number of scheduling deviations) of 2-3 threads with 1-2 operations each on shared documents',
  'Unit tests run one schedule; the races between check and write need a particular interleaving.',
  [L+'database.rs'], [('transaction execution', L+'database.rs')],
  MC_SCHED, 'All schedules with at most 2 deviations from the default schedule are executed on the real code; atomics-only races are not scheduled.'),
 P('C03', 'A crash loses no acknowledged change and leaves no partial one',
  'Whenever the process or machine stops, opening the storage again succeeds and finds every change that was acknowledged and, of the change in progress, all or nothing: documents, executed transactions, databases and views agree. The reopened storage accepts and keeps new changes. This covers first creation, compaction, indexing and creating databases.',
  ['crash_points', 'histories'], 'every file operation of the last step of every history of up to 3 steps is a crash point, with unsynced writes kept, lost everywhere or lost in one file, or the last write torn at a page',
  'Unit tests never stop a process between two writes.',
  [L+'database.rs', L+'storage.rs', L+'vault.rs'], [('transaction commit', L+'database.rs'), ('storage id and open', L+'storage.rs'), ('vault initialization', L+'vault.rs'), ('compaction', L+'tasks/compactor.rs')],
  'exhaustive crash-point enumeration on the recorded file operations of the real code', 'Exhaustive per history; directory operations are assumed to reach the disk in order; pages of 4096 bytes are written whole.', level='fault_enumeration'),
 P('C05', 'View queries answer the map/reduce of the stored documents',
  'Querying a view returns exactly the mappings that the view\'s map function gives for the currently stored documents: selected by key, keys, key range or key prefix, in key order in the requested direction, at most limit many, each naming its document\'s current revision. Reduced queries equal reducing those mappings, per key when grouped, and deleting through a query deletes exactly the listed documents. Reads that ask for no update return the index as of some earlier update.',
  ['inputs', 'histories'], 'every state of a model with three documents and four contents (together with which documents changed since the last update), every change from it, and every selection, order and limit over the views\' keys',
  'The result depends on the history of index updates and on the combination of selection, order, limit and reduction; tests check a few.',
  [L+'views/mapper.rs', L+'database.rs', K+'connection.rs'], [('incremental mapping', L+'views/mapper.rs'), ('view queries and reduction', L+'database.rs'), ('query builders', K+'connection.rs')],
  MC_SEQ, 'Exhaustive within the model; batching of large changes is checked at the batch boundaries only.'),
 P('C06', 'Unique views never hold one key for two documents',
  'In a unique view no two documents ever share a key. An operation that would break this fails with a unique key violation naming the two documents and undoes its whole transaction; every other operation succeeds. This also holds between concurrent writers and after the database is reopened.',
  ['inputs', 'histories', 'schedules'], 'every state and every 1- and 2-operation transaction of a model with three documents and two unique views; schedules of 2-3 concurrent writers of clashing keys',
  'A violation needs the right sequence of key moves, or two writers interleaving between check and write.',
  [L+'database.rs', L+'views/mapper.rs'], [('update_eager_views', L+'database.rs'), ('uniqueness check', L+'views/mapper.rs')],
  MC_SEQ + '; schedules under a controlled scheduler', 'Exhaustive within the model; schedules up to 2 deviations.'),
 P('C09', 'The key-value store follows its documented commands',
  'Every key-value command (set with its options, get, take, delete, increment, decrement; with numeric and byte values, namespaces and expirations) answers as the documentation says and leaves the documented contents, under every persistence policy: a key exists from its set until it is deleted or its expiration passes, also across closing and reopening the database, and numeric conversions never change a value silently.',
  ['inputs', 'histories'], 'every edge of a model of the store (value, remaining lifetime and whether it was written, per key; four persistence policies) and all boundary numbers for the arithmetic and conversions',
  'The answer depends on the history of sets, expirations, delayed writes and restarts; tests try single commands.',
  [L+'database/keyvalue.rs', K+'keyvalue.rs'], [('command execution, expiration and delayed persistence', L+'database/keyvalue.rs'), ('numeric values and timestamps', K+'keyvalue.rs')],
  MC_SEQ, 'Exhaustive within the model (1-2 keys, lifetimes of a few ticks of a virtual clock); the time at which expired keys disappear is judged by the virtual clock.'),
 P('C10', 'Concurrent key-value commands take effect one at a time',
  'Key-value commands run by several threads at once behave as if they ran one after another: no increment is lost, a conditional set or a get-and-delete succeeds for exactly one caller, a read never sees an older value than one already returned. This holds while keys are being written, loaded after opening, or expiring in the background, and the values found after closing and opening the database are the last ones acknowledged.',
  ['schedules'], 'all interleavings (bounded number of scheduling deviations) of 1-3 threads with 1-2 commands each and the background threads (persisting, expiring, loading), under three persistence policies',
  'Losing an update needs a command to run between two steps of a background thread.',
  [L+'database/keyvalue.rs', L+'tasks/manager.rs'], [('staging and persisting keys', L+'database/keyvalue.rs'), ('expiration loader', L+'database/keyvalue.rs')],
  MC_SCHED, 'All schedules with at most 1-3 deviations (per scenario) within the time limit; bounds_completed in the evidence says whether all finished.'),
 P('C11', 'A crash leaves the key-value store as it was after one of its commands',
  'Whenever the process or machine stops, opening the storage again succeeds and finds the keys of the key-value store with the values and expirations they had after some command of the history, never a mixture, and no earlier than the persistence policy promises: every command when it persists immediately, otherwise no more than the changes and the time its thresholds allow. Once the database was closed, everything is there. The reopened store works and keeps new changes, and documents written besides it are unaffected.',
  ['crash_points', 'histories'], 'every file operation of the last step of every history of up to 3 steps (and of ones with 200 keys), under four persistence policies, is a crash point, with unsynced writes kept, lost everywhere or lost in one file, or the last write torn at a page',
  'Keys are written by a background job some time after their command; tests never stop a process between two writes.',
  [L+'database/keyvalue.rs', L+'database.rs'], [('staging, persisting and shutting down', L+'database/keyvalue.rs'), ('key-value entries in transactions', L+'database.rs')],
  'exhaustive crash-point enumeration on the recorded file operations of the real code', 'Exhaustive per history; time is virtual; directory operations are assumed to reach the disk in order; pages of 4096 bytes are written whole.', level='fault_enumeration'),
 P('C12', 'The transaction log lists every transaction once with what it changed',
  'Every transaction that is applied, and nothing else that fails or changes nothing, is listed once by list_executed_transactions, with ids that grow in the order of execution and exactly the documents, collections and keys it changed or deleted; last_transaction_id names the last of them. Starting ids and limits page through the log without gaps or repetitions, also after compaction and reopening, and following the log with the last id seen plus one never misses a transaction while others commit.',
  ['histories', 'schedules'], 'all sequences of eleven operations to depth 4-5 (a smaller set to depth 6-8), with compaction and reopening on files to depth 4-5, every start id of a log of 1150 transactions, and schedules of followers and writers',
  'The log is what replication, caches and audits rely on; it is written by concurrent transactions and searched while it grows.',
  [L+'database.rs', L+'views/mod.rs', K+'transaction.rs'], [('listing', L+'database.rs'), ('changes', K+'transaction.rs')],
  MC_SEQ + '; schedules under a controlled scheduler', 'Exhaustive within the operations and depth; interleavings to a preemption bound.'),
 P('C13', 'Encoded keys decode to the same value and sort in key order',
  'Encoding any value of a supported key type (integers, strings, tuples, options, enums, timestamps, durations, derived keys) succeeds and decodes back to the same value, and comparing the encodings as bytes orders them as the values are ordered.',
  ['inputs'], 'all values of a bounded domain per type, and all pairs of them for order',
  'Round trips and order must hold for every value and pair, including boundary values and nested combinations.',
  [K+'key.rs', K+'key/time.rs', K+'key/varint.rs'], [('composite encoding', K+'key.rs'), ('time keys', K+'key/time.rs'), ('varints', 'crates/bonsaidb-core/src/key/')],
  'bounded exhaustive enumeration of values and pairs on the real code', 'Exhaustive over the listed domains (all of u8, i8, u16, i16 and boundary sets of wider types, composites over their products).'),
 P('C14', 'Collection queries return exactly the documents asked for',
  'However documents of a collection are asked for - one id, several ids, a range of ids, all ids with a prefix, as documents, headers or a count, typed or raw - the answer is exactly the stored documents within, in id order in the requested direction, at most limit many (deleted documents do not count), each with its current contents and header.',
  ['inputs', 'histories'], 'every state of a model with 5-6 documents (before and after compaction), every change from it, and every range over the ids and the values between them, order and limit; also trees of several levels',
  'The answer depends on the stored tree (deleted entries, compaction, several levels) and on the combination of bounds, order and limit; tests check a few.',
  [L+'database.rs', K+'connection.rs', K+'key.rs'], [('list and count', L+'database.rs'), ('query builders', K+'connection.rs'), ('prefix ranges', K+'key.rs')],
  MC_SEQ, 'Exhaustive within the model: integer and string ids; larger trees are a fixed set of sizes and deletion patterns with all pairs of a few bounds.'),
 P('C15', 'Databases are separate, and exist from creation to deletion',
  'A database exists from its creation until it is deleted: it is listed, found under its own schema only, keeps its contents when the storage is reopened, and what is done to another database never affects it. Names and schemas are validated as documented, creating an existing name or deleting a missing one reports the documented error and changes nothing, and a database created under the name of a deleted one starts out empty, views and keys included.',
  ['inputs', 'histories'], 'every edge of a model with two database names and two schemas (contents, indexed or not, earlier databases of the name), in memory and on disk with restarts; every name of up to 3 characters of a small alphabet',
  'Leftovers of a deleted database show only after a particular sequence of steps.',
  [L+'storage.rs', L+'tasks.rs'], [('create_database and delete_database', L+'storage.rs'), ('what background tasks remember', L+'tasks.rs')],
  MC_SEQ, 'Exhaustive within the model; handles of a database that was deleted are not used again.'),
 P('C17', 'A restricted handle can do exactly what its permissions allow',
  'Every operation on a database or storage needs the permissions documented for it, for every document, view, key and topic it touches. A handle (with effective permissions, a session of a user or role, or a database opened through either) that has them all succeeds whatever else it lacks; one that lacks any of them answers permission denied and changes nothing.',
  ['inputs'], 'all operations, each with all permission sets of a systematic family (what is needed; that without each part; each part replaced by every other action, or by the same action on every other, wider or narrower resource), through every way of getting a restricted handle',
  'Tests grant or deny a few actions; a missing or superfluous check shows only for one operation and one permission set.',
  [L+'database.rs', L+'storage.rs', 'crates/bonsaidb-core/src/permissions/', L+'tasks.rs'], [('permission checks of the database', L+'database.rs'), ('permission checks of the storage', L+'storage.rs'), ('documented actions', K+'permissions/bonsai.rs')],
  'exhaustive enumeration of operations and permission sets on the real code', 'Exhaustive over the operations listed and the family of permission sets; Storage::admin() is unrestricted by design and not judged.'),
 P('C18', 'Identities have the permissions of their groups and roles',
  'A session of a user is permitted exactly what the statements of the user\'s permission groups, of the groups of the user\'s roles, and of the storage\'s authenticated permissions allow at that moment; a session of a role likewise. Users, groups and roles are found by name or id; assigning and removing them is idempotent and affects only the user named. Exactly the current password of an existing user authenticates as that user. A token authenticates as its identity only with its key, in time, once per challenge, while it and the identity exist.',
  ['inputs', 'histories'], 'every edge of a model of two users, two groups, two roles and passwords, and every sequence of 4 (thorough 5) token authentication steps',
  'Which permissions result depends on the history of assignments and changes; tests build one assignment each.',
  [L+'storage.rs', K+'admin/user.rs', K+'admin/role.rs', L+'storage/token_authentication.rs', L+'storage/argon.rs'], [('effective permissions', K+'admin/user.rs'), ('assignments and sessions', L+'storage.rs'), ('token challenges', L+'storage/token_authentication.rs')],
  MC_SEQ, 'Exhaustive within the model; deleting roles and groups that are assigned is not modelled.'),
 P('C19', 'Subscribers receive exactly the messages published to their topics',
  'A message published to a topic of a database reaches every subscriber of that topic in that database once, in the order published, with the topic and payload it was published with; nobody else receives it. Subscribing twice does not repeat messages, unsubscribing stops them, a receiver of a dropped subscriber reports that it is disconnected after what was already sent, and blocking and async handles behave alike, also while others subscribe, unsubscribe and publish.',
  ['histories', 'schedules'], 'every state of three subscribers, three topics and two databases and every operation from it with blocking and async handles; schedules of publishers against subscribers that come and go',
  'Lost, repeated or misdirected messages depend on the state of all subscriptions and on timing.',
  [L+'database/pubsub.rs', K+'pubsub.rs'], [('pubsub', L+'database/pubsub.rs'), ('interface', K+'pubsub.rs')],
  MC_SEQ + '; schedules under a controlled scheduler', 'Exhaustive within the model; interleavings to a preemption bound.'),
 P('C20', 'A restored backup holds everything that was backed up',
  'Backing up a storage and restoring it into a new one brings back every document (id and contents) and every key-value entry (namespace, key, value, expiration) of every database, and the users, roles, groups, passwords and memberships of the storage, whether stored in a directory or in a custom location, whatever the names and contents are, and whether or not key-value changes were already written. A backup changes nothing in the storage and writes only below its directory; restoring twice fails and changes nothing.',
  ['inputs', 'histories'], 'each and every pair of about 150 unusual document ids, keys, namespaces and values, in schemas with and without collections; every subset of databases with documents and keys; every combination of password, role and group; four persistence policies',
  'A backup is only read when the data is gone; which names collide or escape is a statement about all of them.',
  [L+'storage/backup.rs', L+'database/keyvalue.rs'], [('backup and restore', L+'storage/backup.rs')],
  MC_SEQ, 'Exhaustive over the items and pairs; names too long for a file name, databases without any content and restoring into databases of another schema are left out.'),
 P('C21', 'Compaction preserves everything observable',
  'Compacting a collection, a database or the key-value store changes nothing that can be observed: documents, revisions, deleted documents, view results (up to date or not), keys and the executed transactions stay the same, also after opening the storage again, whether collections are encrypted or compressed, and whether other threads write, query or compact at the same time. Changes made meanwhile are not lost, and every call returns.',
  ['histories', 'schedules'], 'all sequences of up to 3-4 writes, deletions, queries, key changes, reopenings and compactions of a fresh, small or many-node database with every combination of encryption, compression and memory or disk; schedules of 24 programs of compactions beside writers and queries',
  'What compaction drops shows only in particular histories, settings, or when writers run beside it.',
  [L+'tasks/compactor.rs', L+'database.rs', L+'views.rs'], [('compaction jobs', L+'tasks/compactor.rs'), ('collection settings', L+'database.rs')],
  MC_SEQ + '; schedules under a controlled scheduler', 'Exhaustive over the sequences; schedules up to the stated number of deviations (quick: 10 programs with one deviation).'),
 P('C22', 'Encrypted data is never stored readable and needs its key',
  'With encryption configured (for all collections, or for a collection), the contents of documents, the keys and values of views and key-value entries it covers never appear as they are in any file of the storage, whatever is done with them (updates, deletions, compaction, reopening). A storage opens only with the vault key that it was created with: with a missing, other, damaged or swapped key it fails with an error, without losing anything. Documents hold the bytes that were written, even when these look like encrypted or compressed data, and stay readable when encryption or compression is configured later.',
  ['inputs', 'histories'], 'all sequences of up to 3-4 operations under every combination of settings, followed by a scan of all files; every byte of the keys damaged and every truncation; every sequence of three settings; about 1100 contents that resemble marks of encrypted data',
  'One path that forgets to encrypt, or one content that looks encrypted, is enough; tests look at neither the files nor such contents.',
  [L+'vault.rs', L+'storage.rs', L+'database.rs', L+'tasks/compactor.rs'], [('vault and master keys', L+'vault.rs'), ('tree vaults', L+'storage.rs')],
  MC_SEQ + '; exhaustive enumeration of damaged keys', 'Exhaustive within the stated sequences. Names (collections, keys, ids) and the sizes of contents are not covered; going back from default encryption or compression to neither is not supported by the code (it is refused with an error) and left out.', level='model_checking'),
 P('C23', 'A lost connection leaves no call hanging and no effect doubtful',
  'When the connection between a client and a server is lost at any moment, or the server is shut down, every call returns: an answer, after which its effect is there exactly once, or an error, after which it happened at most once. The same client connects again by itself within two calls. A session ends with its connection: its handles say so, are denied what needs it, and never act with another session, also when the server was restarted. A subscriber receives a gapless prefix of the messages, then that it is disconnected. The server forgets clients that are gone.',
  ['faults', 'schedules'], 'a scripted client (with and without login) whose connection is cut, in three ways, at the boundaries and within every frame (thorough: at every byte) of its traffic in either direction, also with another server found afterwards; and server shutdown, graceful or not, after each call, over WebSocket and QUIC',
  'What happens to a call depends on the byte at which the connection ends; tests disconnect between calls, if at all.',
  ['crates/bonsaidb-client/src/client.rs', 'crates/bonsaidb-client/src/client/tungstenite_worker.rs', 'crates/bonsaidb-client/src/client/quic_worker.rs', 'crates/bonsaidb-server/src/server.rs', 'crates/bonsaidb-server/src/server/websockets.rs'], [('connection of the client', 'crates/bonsaidb-client/src/client/tungstenite_worker.rs'), ('connections of the server', 'crates/bonsaidb-server/src/server.rs')],
  'exhaustive fault enumeration on the real client and server: a relay cuts the connection at every position of the traffic', 'Exhaustive over cut positions of one script; a QUIC connection is not cut (its packets are encrypted and the client has no idle timeout), only the server behind it stopped.', level='fault_enumeration'),
 P('C24', 'A remote connection behaves like a local one',
  'Over WebSocket or QUIC, with the asynchronous or the blocking client, every operation on documents, views, keys, messages, databases, users and permissions answers as the same operation on a local storage, including errors, and has the same effects; likewise when two connections work on one database, and with the same permissions.',
  ['inputs', 'histories'], 'every one of about 150 operations in every prepared state, all sequences of up to 2-3 of them within each group, all pairs over two connections, and every operation under 64 sets of permissions, compared to the local, blocking storage',
  'Each operation passes through its own message, handler and conversion of errors; a difference shows in the combination of operation, state and transport.',
  ['crates/bonsaidb-server/src/dispatch.rs', 'crates/bonsaidb-client/src/client.rs', K+'networking.rs'], [('request handlers', 'crates/bonsaidb-server/src/dispatch.rs'), ('client operations', 'crates/bonsaidb-client/src/client.rs'), ('messages', K+'networking.rs')],
  'explicit-state model checking: the local storage is the model, every operation sequence is replayed over real connections', 'Exhaustive within the stated groups; times and random ids are left out of the comparison.'),
 P('C25', 'Stored files read back exactly what was written to them',
  'Reading a file (bonsaidb-files) returns exactly the bytes appended to it, whatever the block boundaries: after any sequence of reads of any size, seeks, appends, buffered or async writes, truncations and deletions, with the blocking and the async interface alike, including cancelled async reads. Appends that run at the same time each end up whole, and deleting a file deletes its contents.',
  ['inputs', 'histories', 'schedules'], 'all sequences of up to 3-4 reads and seeks over small block sizes, every edge of a model of a file\'s contents, and schedules of concurrent appends, truncations and deletions',
  'Block arithmetic and buffering fail at particular offsets and sequences; tests read files front to back.',
  ['crates/bonsaidb-files/src/lib.rs', 'crates/bonsaidb-files/src/direct.rs', 'crates/bonsaidb-files/src/schema/block.rs'], [('file contents and writers', 'crates/bonsaidb-files/src/direct.rs'), ('block storage', 'crates/bonsaidb-files/src/schema/block.rs')],
  MC_SEQ + '; schedules under a controlled scheduler', 'Exhaustive over the small block sizes and sequence lengths stated; reading while another thread truncates is not a snapshot and is left out.'),
 P('C26', 'File names form a tree of unique paths',
  'A path of the file storage names at most one file at any time: creating an existing path fails with the documented error, and creating, loading, listing (direct or recursive), counting, renaming, moving and deleting files answer according to the set of paths that exist, each file keeping its own contents and metadata.',
  ['inputs', 'histories'], 'every state of up to 2-3 files on five nested paths and every operation from it, blocking and async; a list of unusual names',
  'The listing and renaming of nested paths depend on which other files exist.',
  ['crates/bonsaidb-files/src/lib.rs', 'crates/bonsaidb-files/src/direct.rs', 'crates/bonsaidb-files/src/schema/file.rs'], [('paths and views over them', 'crates/bonsaidb-files/src/schema/file.rs'), ('file operations', 'crates/bonsaidb-files/src/direct.rs')],
  MC_SEQ, 'Exhaustive within the model; paths with empty components are left out.'),
 P('C27', 'The asynchronous interface behaves like the blocking one',
  'Every operation of the asynchronous storage and database, and of the server handle, answers as the same operation of the blocking interface, has the same effects, and is subject to the same permissions.',
  ['inputs', 'histories'], 'every one of about 150 operations in every prepared state, all sequences of up to 2-3 of them within each group, pairs over two handles, and every operation under 64 sets of permissions',
  'Each operation is written twice; tests rarely compare the two.',
  [L+'async.rs', 'crates/bonsaidb-server/src/server.rs'], [('asynchronous interface', L+'async.rs'), ('server handles', 'crates/bonsaidb-server/src/server/database.rs')],
  'explicit-state model checking: the blocking interface is the model, every operation sequence is replayed on the asynchronous one', 'Exhaustive within the stated groups.'),
 P('C28', 'Malformed bytes are refused with an error, never a panic',
  'Decoding untrusted bytes as a key, document id, revision, or other serialized value either returns a value or an error; it never panics. Text forms of ids and names parse back to the same value.',
  ['inputs'], 'all byte strings up to a length, and all single-byte changes of valid encodings',
  'Totality is a statement about every input.',
  [K+'key.rs', K+'document/id.rs', K+'document/revision.rs'], [('decoders', K+'key.rs'), ('document ids', K+'document/id.rs')],
  'bounded exhaustive enumeration of inputs on the real code', 'Exhaustive up to the stated lengths.'),
 P('C29', 'No message from a client can stop the server',
  'Whatever bytes a client sends, valid or not, the server neither panics nor stops serving: it answers the message or closes that connection, keeps serving other connections, does nothing the client is not permitted to do, and lets go of the connection when it ends.',
  ['inputs'], 'every request of a client that uses the whole interface with each byte changed (thorough: to every value), cut short at every length, outside and within its payload; every request with other sessions, ids, names and contents; about 900 malformed greetings, frames and fragments',
  'Robustness against malformed messages is a statement about every input; tests send valid ones.',
  ['crates/bonsaidb-server/src/server/websockets.rs', 'crates/bonsaidb-server/src/server.rs', 'crates/bonsaidb-server/src/api.rs', 'crates/bonsaidb-server/src/server/connected_client.rs'], [('websocket connections', 'crates/bonsaidb-server/src/server/websockets.rs'), ('request workers', 'crates/bonsaidb-server/src/server.rs')],
  'bounded exhaustive enumeration of malformed messages on the real server', 'Exhaustive over single-byte changes and truncations of the recorded requests; WebSocket only.'),
]
