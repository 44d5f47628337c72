SIGNED = ['i8', 'i16', 'i32', 'i64', 'i128']
FINDINGS = [
    {'property': 'C03', 'status': 'known',
     'title': 'nebari 0.5.5 (the storage engine dependency) fails to open a tree whose last write was torn across a page boundary, instead of stepping back to the previous header (initialize_state, read_chunk(..)?)',
     'signatures': ['a torn write in a tree file: the tree cannot be opened']},
    {'property': 'C03', 'status': 'known',
     'title': 'nebari 0.5.5 gives the first transaction after a crash the id of the interrupted one, so tree pages the interrupted transaction had written are taken as committed (documents or view entries that never existed appear)',
     'signatures': ['trees written by an interrupted transaction are taken as committed once its number is reused']},
    {'property': 'C03', 'status': 'known',
     'title': 'delete_database removes the files before the record that lists the database (storage.rs, StorageInstance::delete_database)',
     'signatures': ['a crash while delete_database removes files: the database is listed without its contents']},
    {'property': 'C03', 'status': 'known',
     'title': 'nebari 0.5.5 writes a transaction log entry page by page (1024 bytes) and, when the process ends between two pages, never opens the database again (scan_for_transaction reads past the end instead of stepping back to the previous entry); entries take several pages from about 30 documents or keys on',
     'signatures': ['a log entry of several pages was cut off: the database cannot be opened']},
    {'property': 'C11', 'status': 'known',
     'title': 'nebari 0.5.5 (the storage engine dependency) fails to open a tree whose last write was torn across a page boundary (see C03)',
     'signatures': ['a torn write in a tree file: the tree cannot be opened']},
    {'property': 'C11', 'status': 'known',
     'title': 'nebari 0.5.5 gives the first transaction after a crash the id of the interrupted one, so key-value entries of an interrupted write are taken as committed by the next transaction (see C03)',
     'signatures': ['trees written by an interrupted transaction are taken as committed once its number is reused']},
    {'property': 'C11', 'status': 'known',
     'title': 'nebari 0.5.5 writes a transaction log entry page by page (1024 bytes) and, when the process ends between two pages, never opens the database again (scan_for_transaction reads past the end instead of stepping back to the previous entry); entries take several pages from about 30 documents or keys on',
     'signatures': ['a log entry of several pages was cut off: the database cannot be opened']},
    {'property': 'C13', 'status': 'known',
     'title': 'signed primitives are stored as big-endian two\'s complement, so negative keys sort after non-negative ones (changing it would change the on-disk format)',
     'signatures': [f'{t}: a negative number sorts after a non-negative one'
                    for t in SIGNED + ['NonZero' + t.upper() for t in SIGNED]]},
    {'property': 'C13', 'status': 'known',
     'title': 'escaping a null byte as two null bytes is not order-preserving next to the field delimiter (changing it would change the on-disk format)',
     'signatures': [f'{t}: a field followed by a null byte sorts before the same field ending'
                    for t in ['(String, u8)', '(u8, String)', '(String,)', '(Vec<u8>, Vec<u8>)']]},
    {'property': 'C09', 'status': 'known',
     'title': 'a key in the empty namespace and the same key without a namespace share one stored entry (the stored name is namespace, null, key; changing it would change the on-disk format)',
     'signatures': ['keys collide: the empty namespace and no namespace']},
    {'property': 'C09', 'status': 'known',
     'title': 'namespaces and keys containing null characters can share one stored entry (the stored name is namespace, null, key; changing it would change the on-disk format)',
     'signatures': ['keys collide: names containing null characters']},
    {'property': 'C29', 'status': 'known',
     'title': 'pot 3.0.0 (the serialization dependency) walks through a map of a claimed length of up to 2^60 unit entries when it ignores an unknown value: such a request (List, Query and others, without any permission) keeps a server thread busy for ever',
     'signatures': ['decoding a request (pot) does not end: a map of a huge length']},
]
FIXED = [
    ('C18', 'fix: users are granted the permissions of the roles they are assigned', 'the roles of a user were looked up by the ids of its groups, so assigned roles granted nothing (or other roles did)'),
    ('C18', 'fix: roles are found by their own names when assigned to users', 'add_role_to_user by name looked the name up among the permission groups'),
    ('C17', 'fix: check the permission to delete documents through a view', 'delete_docs of a view worked without the DeleteDocs permission'),
    ('C17', 'fix: databases opened through an authenticated storage keep its session', 'Storage::database of a restricted storage returned an unrestricted database'),
    ('C17', 'fix: querying a view requires no permission beyond those documented', 'querying or reducing a view was denied without the permission to get the last transaction id'),
    ('C15', 'fix: forget what was known about a database once it is deleted', 'a database created under the name of a deleted one had empty views (they were taken to be up to date)'),
    ('C14', 'fix: count only the documents within the range requested', 'count of a range of ids answered too much once the collection had more than one tree node'),
    ('C14', "fix: deleted documents no longer count toward the limit of a list query", 'list with a limit returned fewer documents when documents within the range had been deleted'),
    ('C26', 'fix: files cannot be renamed to an empty name', 'renaming a file to an empty name succeeded, and the file could not be found any more'),
    ('C25', 'fix: delete files together with their contents', 'the blocks of a file stayed behind when deleting it was interrupted or ran beside an append'),
    ('C25', 'fix: buffered file writers work when blocks are larger than a megabyte', 'a buffered writer with blocks above one megabyte never accepted data'),
    ('C25', 'fix: never poll a completed flush of an async file writer', 'writing after flushing an async buffered writer panicked'),
    ('C25', 'fix: async into_vec returns the remaining contents of a partially read file', 'async into_vec after a partial read returned wrong contents'),
    ('C25', 'fix: async file reads return what was read before waiting for more blocks', 'an async read lost bytes when it crossed into a block not loaded yet'),
    ('C25', 'fix: seeking in a file reports invalid positions instead of panicking', 'seeking before the start or to huge offsets panicked'),
    ('C25', "fix: reading a file into an empty buffer no longer skips its contents", 'a read into an empty buffer skipped a block'),
    ('C10', 'fix: load key-value expirations without overriding concurrent changes', 'a key set again (or deleted) while the expirations were being loaded after opening got its old expiration back and disappeared'),
    ('C09', 'fix: convert floats to integers only when the value is unchanged', 'the checked conversions of a Float accepted values outside of the integer range (as_i64_lossless(2^63) answered i64::MAX)'),
    ('C09', 'fix: carry whole seconds when adding a duration to a timestamp', 'Timestamp + Duration lost a second when the nanoseconds overflowed'),
    ('C09', 'fix: persist all keys before closing the key-value store', 'changes made while keys were being persisted were lost when the database closed'),
    ('C09', 'fix: release the key-value tree when no key needs to be written', 'closing the database could hang: persisting no keys kept the tree locked'),
    ('C09', 'fix: never return expired key-value entries after opening a database', 'a key that expired while the database was closed was returned after opening it'),
    ('C03', 'fix: survive interruptions while the storage id and vault keys are first written', 'after a crash between creating and writing storage-id or master-keys the storage could never be opened again'),
    ('C15', 'fix: only delete directories of existing databases', 'delete_database("x") of a name that is no database removed the directory of that name below the storage, or outside it for "../x"'),
    ('C15', 'fix: reject empty database names', 'a database named "" was created in the directory of the storage itself'),
    ('C12', 'fix: listing executed transactions while others commit could skip transactions', 'following the log with the last id seen plus one missed transactions that committed between the two reads of the length of the log: found [5] of [4, 5, 6]'),
    ('C20', 'fix: backups include the key-value entries of schemas without collections', 'the key-value entries of a database whose schema has no collections, such as (), were not backed up'),
    ('C20', 'fix: restore key-value entries to the namespace they were stored in', 'a key of the namespace "n._key._m" or "n._key" was restored as another key of the namespace "n"'),
    ('C20', 'fix: backups to a directory keep every name within its own file', 'documents named "", ".", ".." or "a/b" failed the backup or were lost, and ids such as "../../../../e" were written outside of the backup directory'),
    ('C17', 'fix: keep the session\'s restrictions on the admin database', 'Storage::admin() of a restricted or logged-in handle returned an unrestricted admin database (users, password hashes, roles)'),
    ('C24', 'fix: check permissions for the asynchronous last_transaction_id', 'AsyncDatabase::last_transaction_id, and so the same request over the network, worked without the GetLastId permission'),
    ('C21', 'fix: compact encrypted collections with their own encryption settings', 'compacting an encrypted collection failed (invalid node header), or with only compression configured wrote it unencrypted (also C22)'),
    ('C22', 'fix: return an error when the vault key does not open the master keys', 'opening a storage with another, damaged or swapped vault key panicked'),
    ('C21', 'fix: do not wait for other jobs inside compaction jobs', 'compacting a collection or database waits inside a job for other jobs, so as many concurrent compactions as there are workers never return'),
    ('C13', 'fix: pad fixed-length composite key fields so None can be decoded', 'a composite key with a None of a fixed-length type, e.g. (None::<u8>, 5u8), could be encoded but not decoded'),
    ('C28', 'fix: return an error for unescaped null bytes in composite keys', 'decoding a composite key with a lone null byte in a field reached todo!() and panicked'),
    ('C13', 'fix: return an error when encoding a SystemTime before the unix epoch', 'encoding a SystemTime before 1970 panicked'),
    ('C13', 'fix: convert i64::MIN limited resolution durations without changing their value', 'Seconds/Milliseconds/Microseconds::new(i64::MIN) converted to a duration of u64::MAX units'),
    ('C28', "fix: print document ids containing '$' so that they parse back", "a document id such as b\"a$\" printed as \"a$\", which parses as ten null bytes"),
    ('C28', 'fix: return an error for malformed composite key lengths', 'decoding malformed composite keys panicked on slice bounds or a shift overflow'),
    ('C05', 'fix: honor sort order and ignore repeated keys when querying views by multiple keys', 'a query by several keys ignored the order asked for and listed a key given twice twice'),
    ('C05', 'fix: return at most limit mappings from view queries', 'limit counted keys, so more mappings than the limit were returned'),
    ('C05', 'fix: delete each document once when a view query lists it under several keys', 'delete_docs failed with a conflict when a document was listed under several keys'),
    ('C29', 'fix: answer requests that contain an error instead of panicking', 'a message whose payload was an error ended one of the request workers; after a few of them no request of any client was answered'),
    ('C29', 'fix: end the subscriptions of disconnected clients', 'the connections of clients with subscribers were never closed or forgotten by the server after they ended or sent a malformed message'),
    ('C23', 'fix: report lost connections to callers and subscribers', 'requests over a WebSocket that the server closed cleanly waited for their timeout, and QUIC subscribers were not told of a lost connection'),
    ('C23', 'fix: never use the session of a lost connection', 'a handle whose session was lost acted with the session of another handle after the server restarted'),
    ('C23', 'fix: tell QUIC clients when the server shuts down', 'requests of QUIC clients waited for the request timeout once the server was shut down, and new connections were accepted but not served'),
]
