prop('P01', 'Point lookup returns exactly what was inserted',
     'After any history of inserts with ascending keys and flushes that the allocated space still holds, looking up any key returns the data stored with it if that key was inserted, and reports "not found" otherwise, leaving no other answer possible. This holds whether the record is still buffered, was flushed in a partial page or was written in a full page, with spline or binary search, with and without indexing, and for every key and data size supported.',
     ['inputs', 'histories', 'configurations'], 'all ascending key sequences of all values (2/4/8-byte keys), all data values, all flush points, all probe keys; up to 12 records on up to 6 pages in the quick tier',
     TESTS + 'an off-by-one in page selection, in-page search or the spline bounds shows only for particular gaps between keys.',
     [E, S, D], [('splineSearch/linearSearch/binarySearch choose the page', E), ('embedDBSearchNode finds the record in the page', E), ('splineFind bounds', S)], observe=['embedDBGet'])
prop('P02', 'Only strictly increasing keys are accepted',
     'An insert succeeds exactly when its key is greater than every key stored so far, in the order of the configured comparator; otherwise it is refused with an error and the stored contents do not change. This also holds for the first insert after a flush, after the circular storage has wrapped and after the database is reopened.',
     ['inputs', 'histories'], 'all key values for the probing inserts, after every flush / reopen choice',
     'Tests try one or two out-of-order keys; they never combine the check with partial pages, restarts and wrap-around.',
     [E, D], [('previous key lookup in embedDBPut', E)], observe=['embedDBPut', 'embedDBNext'])
prop('P03', 'Full storage evicts only the oldest records, one erase block at a time',
     'When more records are inserted than fit in the allocated data pages, inserting keeps succeeding, the records still stored are always a contiguous run ending with the newest record, and no more than the oldest erase block is given up to make room. Every stored record is still found by lookup and returned by iteration, and no evicted record is ever returned.',
     ['inputs', 'histories', 'configurations'], 'all key/data values, all flush points, erase block sizes 1 and 2, spline cleaning on/off, binary search; up to two rounds through the storage',
     'Tests wrap with consecutive keys and large pages only and check a few keys.',
     [E, D, S], [('erase and minDataPageId in writePage', E), ('cleanSpline', E), ('lower clamp in splineSearch / embedDBInitIterator', E)], observe=['embedDBPut', 'embedDBGet', 'embedDBNext', 'storage interface calls'])
prop('P04', 'Iteration returns exactly the matching records in key order',
     'An iterator with any combination of minimum/maximum key and minimum/maximum data bound returns exactly the stored records that satisfy all bounds (inclusive), each once, in ascending key order, including records that are still buffered, and then reports the end. This does not depend on which records share a page or where flushes happened.',
     ['inputs', 'histories'], 'all keys, data values and filter bounds; every subset of the four filters used in the job table; all flush points',
     'Tests iterate with a handful of fixed bounds.',
     [E, D], [('embedDBInitIterator start page', E), ('embedDBNext filters', E)], observe=['embedDBNext'])
prop('P05', 'Bitmap indexing never changes query results',
     'For every history and every query, a database that uses the data bitmap and the index file returns the same records as one without them, provided the supplied bitmap functions are sound (a value\'s bits are contained in the range bitmap of every range containing it). Evicted, flushed, partially filled and wrapped index pages only affect how many pages are read.',
     ['inputs', 'histories', 'configurations'], 'all data values, all filter bounds, all flush points, index page capacities of one record and more, wrapped data and index files',
     'Tests check result counts for one data distribution; skipping a page wrongly needs a specific page/bitmap/index alignment.',
     [E, D], [('embedDBPut/addIndexRecord store bitmaps', E), ('findIndexRecord and bitmapOverlap decide skipping', E)], observe=['embedDBNext'])
prop('P06', 'Shipped bitmap helpers never hide a matching value',
     'For the 8-, 16- and 64-bit bitmap helper families: after a value has been added to a bitmap, the membership test for that value succeeds, and the bitmap built for any range that contains the value overlaps that bitmap, for ranges with both, one or no bound. Each helper terminates and touches only the bytes of its bitmap and value.',
     ['inputs'], 'all 32-bit data values and all range bounds',
     'The helpers are covered by no test at all beyond indirect use of the 8-bit one with small values.',
     [U, D], [('updateBitmap*/inBitmap*/buildBitmap*FromRange', U)], observe=['helper return values'])
prop('P07', 'Variable-length data is returned exactly as stored',
     'With variable data enabled, every stored record returns exactly the variable data it was inserted with (any length and content, including data spanning several pages), a record inserted without variable data reports none, and lookups and iteration agree, whether record and data are still buffered, partly written or flushed, and whichever lookups happened before.',
     ['inputs', 'histories'], 'all data bytes and keys; lengths 0 to 45 bytes around the page boundaries of the test page size; every mix of records with, without and never linked to variable data; all flush points',
     'Tests use fixed strings of similar length on 512-byte pages; page-boundary alignments and cache reuse need specific lengths and orders.',
     [E, D], [('embedDBPutVar/writeVariablePage', E), ('embedDBGetVar/embedDBNextVar/embedDBSetupVarDataStream', E)], observe=['embedDBGetVar', 'embedDBNextVar', 'embedDBVarDataStreamRead'])
prop('P08', 'Reading a variable-data stream does not depend on the chunk size',
     'Reading a stream in chunks of any size returns the same bytes as one large read: each call returns exactly the requested number of bytes or what is left, the end is reported by 0, no byte beyond the requested length is written to the caller\'s buffer, and other lookups or streams used in between make no difference.',
     ['inputs', 'histories'], 'all contents, chunk sizes 1 to 25 bytes, data lengths around the page boundaries, two streams read alternately with a lookup between reads',
     'Tests read each stream with one or two chunk sizes that do not end on page boundaries.',
     [E, D], [('embedDBVarDataStreamRead', E)], observe=['embedDBVarDataStreamRead'])
prop('P09', 'Variable data is only lost oldest-first and then reported as lost',
     'When the space for variable data is full, the oldest erase block is recycled: records whose variable data was recycled are still returned with their fixed data and report the variable data as unavailable, while every record whose data lies in pages that were not recycled returns it unchanged. Old bytes or the data of another record are never returned instead.',
     ['inputs', 'histories'], 'all data bytes and keys; all sequences of the listed lengths and NULL data, through two rounds of the variable-data file; lookups in between at any record',
     'One test wraps the variable-data file with equal-sized items and checks a few keys.',
     [E, D], [('erase and minVarRecordId in writeVariablePage', E), ('read cache in readVariablePage', E)], observe=['embedDBGetVar', 'embedDBNextVar'])
prop('P10', 'Restart restores exactly the records that reached storage',
     'Closing the database or losing power between operations and then reopening the same files brings back every record whose page had been written, with the same data, and none that had not; the database then behaves as if it had never been closed: lookups and iteration agree, further inserts continue the same key order and storage wrap-around, and pages are never overwritten without being erased. When the storage has wrapped and the next write would recycle an erase block anyway, recovery may give up that oldest block and nothing else.',
     ['inputs', 'histories', 'crash points'], 'all key/data values, restarts after every number of inserts in the stated ranges, all flush points, up to two restarts and two rounds through the storage; storage that erases to 0xFF, to 0x01 or leaves old bytes',
     'Tests reopen at a few page counts with consecutive keys.',
     [E, D], [('embedDBInitDataFromFile scans for the newest and oldest page', E), ('embedDBInitSplineFromFile', E)], observe=['embedDBInit', 'embedDBGet', 'embedDBNext', 'storage interface calls'])
prop('P11', 'Index recovery never changes query results',
     'After a clean restart or a power loss at any storage operation, a database with the data bitmap and index file answers every data-range query with exactly the stored matching records, keeps accepting inserts, and keeps recycling index pages one aligned erase block at a time without overwriting unerased pages.',
     ['inputs', 'histories', 'crash points'], 'crash before any storage operation of the last operations (data and index file), all flush points, arbitrary query bound, two records with arbitrary data; storage that erases to 0xFF or keeps old bytes',
     'Tests reload three index files after clean shutdowns.',
     [E, D], [('embedDBInitIndexFromFile', E), ('findIndexRecord', E), ('writeIndexPage', E)], observe=['embedDBInit', 'embedDBNext', 'storage interface calls'])
prop('P12', 'Restart restores variable data',
     'After flushing, closing and reopening a database with variable data, every record still returns the variable data it was stored with; only records on the oldest page(s) of a wrapped variable-data file may be reported as lost. New variable data is then appended without overwriting unerased pages or data that is still referenced.',
     ['inputs', 'histories'], 'all data bytes and keys, restarts at any of the marked points, through two rounds of the variable-data file',
     'Tests restart a few prepared files.',
     [E, D], [('embedDBInitVarDataFromFile', E)], observe=['embedDBGetVar', 'embedDBNextVar', 'storage interface calls'])
prop('P13', 'Record-level consistency: no acknowledged record is lost at any crash point',
     'With record-level consistency enabled, every insert that returned success survives a power loss before any later storage operation: after reopening, all acknowledged records that were not evicted are present with their data in order, at most the interrupted insert is additional, and the database keeps working, including through further crashes, flushes and storage wrap-around. Temporary pages never overwrite unerased or permanent pages.',
     ['crash points', 'inputs', 'histories'], 'crash before every write/erase of the listed histories (also two crashes in a row), all flush points, erase blocks of 1 and 2 pages, spline and binary search, through two rounds of storage',
     'Tests simulate recovery for a few hand-made page layouts only.',
     [E, D], [('writeTemporaryPage/shiftRecordLevelConsistencyBlocks', E), ('embedDBInitDataFromFileWithRecordLevelConsistency', E)], observe=['embedDBInit', 'embedDBGet', 'embedDBNext', 'storage interface calls'])
prop('P14', 'Spline search bounds always contain the page of a key',
     'For every sequence of strictly increasing page minimum keys added to the learned index and every maximum error, the page range reported for a key contains the page whose key interval the key falls in, also after old points were dropped because the point array is full. The points stay in ascending key and page order and within the allocated array.',
     ['inputs', 'configurations'], 'all 2/4/8-byte key sequences of up to 5-7 pages, maximum errors 0, 1, 2, point array sizes 4 and 8',
     'Spline tests use fixed sequences and assert point counts, not the error bound.',
     [S, D], [('splineAdd error corridor', S), ('splineFind interpolation and bounds', S), ('splineErase', S)], observe=['splineFind'])
prop('P15', 'Cleaning the spline keeps every live page findable',
     'Removing spline points for evicted pages never removes information needed for a page that is still stored: the reported page range still contains the right page for every key at or above the oldest stored page\'s first key. Cleaning never leaves fewer than two points, never corrupts the point array, and does nothing when no points can be removed.',
     ['inputs', 'histories'], 'all key sequences, cleaning after each added page for retention windows of 3 and 4 pages',
     'One test cleans a spline once with fixed keys.',
     [E, S, D], [('cleanSpline', E), ('splineErase', S)], observe=['splineFind', 'embedDBGet'])
prop('P32', 'Written pages survive a power loss at any point',
     'A power loss before any storage write or erase loses only records that were not yet on a written page (and an erase block that was already being recycled): reopening succeeds, returns exactly the records of all pages written so far, and inserting continues correctly.',
     ['crash points', 'inputs', 'histories'], 'crash before every write/erase of the listed histories, also twice in a row, through two rounds of storage, storage that erases to 0xFF or keeps old bytes',
     'Tests never interrupt an operation.',
     [E, D], [('embedDBInitDataFromFile', E), ('erase before write in writePage', E)], observe=['embedDBInit', 'embedDBGet', 'embedDBNext'])
prop('P18', 'Every accepted configuration works, every other one is refused cleanly',
     'For every value of the configuration fields (sizes, page counts, erase block size, buffer blocks, bitmap size, spline points, feature flags, files), embedDBInit either refuses with an error, leaves no file open and no memory allocated, or returns success with a page layout in which header, records, bitmap, min/max and pointers fit on a page without overlapping and with at least one record per page, and a database in which inserting, flushing and looking up works inside the allocated pages and buffers. Failing to open a file is reported, not ignored.',
     ['configurations'], 'all 8-bit/32-bit values of the count and size fields at the listed page sizes, for the feature combinations in the job table, every subset of files failing to open',
     'Tests use a handful of valid configurations; refusals are hardly tested.',
     [E, D, S], [('embedDBInit and the init helpers validate and allocate', E), ('splineInit', S)], observe=['embedDBInit', 'embedDBPut', 'storage interface calls'])
prop('P19', 'Storage errors are reported and never corrupt the database',
     'When any single storage read, write or erase (or two of them) fails, the operation that needed it reports an error or its effect is complete; success is never reported for something that did not happen. Records acknowledged before are still found with their data, the failed record is either completely stored or not at all, later operations work once the storage works again, no page is overwritten without being erased, and reopening finds everything that was written.',
     ['fault schedules', 'inputs', 'histories'], 'failure of every storage operation (one or two per history) of the listed histories, over all keys and data values, with data, index, variable-data and record-level consistency pages',
     'No test injects a storage failure.',
     [E, D], [('writePage/writeIndexPage/writeVariablePage/writeTemporaryPage results', E), ('embedDBPut/embedDBFlush/embedDBPutVar error paths', E), ('readPage/readVariablePage caches', E)], observe=['embedDBPut', 'embedDBFlush', 'embedDBGet', 'embedDBInit', 'storage interface calls'])
C = 'src/query-interface/schema.c'
FD = 'lib/Desktop-File-Interface/desktopFileInterface.c'
FS = 'lib/SD-File-Interface/SDFileInterface.c'
FF = 'lib/Dataflash-File-Interface/dataflashFileInterface.c'
prop('P21', 'Selection returns exactly the rows that satisfy the predicate',
     'A selection over a table scan (with or without iterator bounds) returns exactly the records whose column compares as requested (>, <, >=, <=, ==, !=) with the given value, unchanged and in order, for columns of every size, signed or unsigned, including the key, and then reports the end for good. Closing and freeing the query releases all memory.',
     ['inputs', 'configurations'], 'all record contents and comparison values, the six operators, column sizes 1 to 8, 9 and 16 bytes, both signednesses; two to three records',
     'Tests run two fixed queries over 32-bit columns of one data file.',
     [Q, C, D], [('compareSignedNumbers/compareUnsignedNumbers', Q), ('nextSelection', Q)], observe=['exec'])
prop('P22', 'Projection returns the chosen columns of every row',
     'A projection returns, for every input row and in the same order, exactly the listed columns with their bytes unchanged and packed in the listed order, and its schema describes them. Closing and freeing the query releases all memory.',
     ['inputs', 'configurations'], 'every non-empty subset of three columns, column sizes 1 to 8 bytes of both signednesses, all contents',
     'Tests project one fixed list of columns.',
     [Q, C, D], [('nextProjection', Q), ('getColOffsetFromSchema', C)], observe=['exec', 'schema'])
prop('P23', 'Aggregates equal their definition on every group',
     'An aggregation returns one row per maximal run of input rows that belong to the same group, in order, with COUNT, SUM, MIN, MAX and AVG of exactly the rows of that run for signed and unsigned columns of every supported size, also when it reads from selections and projections and when no row is left; then it reports the end for good. Closing and freeing the query releases all memory.',
     ['inputs', 'configurations'], 'all record contents and hence all groupings of two to four rows, column sizes 1 to 8 bytes of both signednesses; AVG as float or double',
     'Tests aggregate one fixed data file with 32-bit columns.',
     [Q, C, D], [('nextAggregate', Q), ('sumAdd/minAdd/maxAdd/avgAdd/countAdd', Q)], observe=['exec'], note=NOTE_FP)
prop('P24', 'Key join returns exactly the pairs with equal keys',
     'A key join of two inputs sorted by key returns, in key order, exactly one row for every key that occurs on both sides, consisting of both records, whatever the gaps, lengths and filters of the inputs are, and then reports the end. Its schema lists the columns of both inputs.',
     ['inputs'], 'all ascending key sequences and contents of two tables with two to three records each, with iterator bounds or a selection below the join',
     'Tests join one pair of fixed data files.',
     [Q, C, D], [('nextKeyJoin', Q)], observe=['exec', 'schema'])
prop('P25', 'Schemas describe exactly the columns they were created from',
     'Creating a schema succeeds exactly when every column size is between 1 and 127 and every signedness is one of the two constants, and refusing one releases all memory. Column offsets, sizes, signedness and the record size follow from the given list; copies are equal and independent; record buffers are zeroed and large enough; freeing clears the pointer and may be repeated.',
     ['inputs'], 'all size and signedness bytes of one to four columns',
     'Tests create one valid schema.',
     [C, D], [('embedDBCreateSchema', C), ('copySchema', C)], observe=['embedDBCreateSchema', 'getColOffsetFromSchema', 'getRecordSizeFromSchema'])
prop('P26', 'Shipped comparators are total orders',
     'int32Comparator and int64Comparator return a negative, zero or positive result exactly as the first signed value is smaller than, equal to or greater than the second, for every pair of values; the byte-wise signed and unsigned comparisons of the query interface do the same for every size up to 16 bytes.',
     ['inputs'], 'all pairs of values',
     'Tests compare neighbouring small values, where a difference never overflows.',
     [U, Q, D], [('int32Comparator/int64Comparator', U), ('compareSignedNumbers/compareUnsignedNumbers', Q)], observe=['return values'])
prop('P28', 'File interfaces store every page at its own place and report failures',
     'Through each shipped file interface (desktop, desktop with mock erase, SD card, data flash) a page that was written is read back unchanged at the same page number whatever other page is written before or after, for every page number, also after closing and reopening; erasing affects exactly the pages of the range; opening modes keep or drop the contents as documented; and every read, write, erase, flush or open whose underlying call fails returns 0 and works when repeated. A page that is missing or cut off at the end of the file is reported as unreadable. Nothing is left open or allocated after tear-down.',
     ['inputs', 'fault schedules'], 'all pairs of 32-bit page numbers (small files for SD and flash), arbitrary page contents, failure of every underlying call (one or two per history)',
     'Tests only use small files on a working disk; the SD and flash interfaces are not built on the desktop at all.',
     [FD, FS, FF], [('FILE_READ/FILE_WRITE offsets', FD), ('MOCK_FILE_ERASE', FD), ('FILE_WRITE padding', FS), ('DF_READ/DF_WRITE', FF)], observe=['file interface functions'])
prop('P27', 'The single-file distribution behaves exactly like the sources',
     'Fed with the same operations, the single-file distribution and the library sources return the same results, perform the same storage reads, writes and erases and leave files that are interchangeable: a database written by one is opened by the other with the same contents and continues in the same way. Their bitmap helpers, comparators and operators agree on all arguments.',
     ['inputs', 'histories', 'configurations'], 'all keys (ascending or not), data, bounds and flush/restart choices of the listed histories, run in lockstep on both; helpers on all arguments',
     'The distribution is a generated copy that is tested separately; nothing compares the two.',
     [D, E, S, Q, U], [('whole distribution', D)], observe=['all public operations of both'])
prop('P16', 'Every written page is a faithful, self-contained encoding',
     'Each data page in storage carries its page id, the number of its records, exactly the records inserted since the previous page in key order, the bitmap of exactly those records and their exact key and data range when enabled; each variable-data pointer leads to the stored length and bytes, each variable-data page records the newest key with data on it; index pages carry the bitmaps of consecutive data pages without gaps. An independent reader of the files can therefore recover the contents.',
     ['inputs', 'histories', 'configurations'], 'all keys and data of the listed histories, all flush and restart choices, header layouts with and without bitmap, min/max and variable data, odd key sizes',
     'No test decodes all pages independently of the library code that wrote them.',
     [E, D], [('embedDBPut and EMBEDDB_GET_* header layout', E), ('addIndexRecord', E), ('embedDBPutVar', E)], observe=['bytes passed to the storage interface'])
prop('P29', 'Open iterators and several databases do not disturb each other',
     'While an iterator is open, inserts, flushes, lookups and other iterators may be interleaved with its steps: it still returns, in ascending order and at most once each, every matching record that was stored when it was opened, except those recycled in the meantime, never a record outside its bounds and never wrong data or variable data; records inserted later may appear at its end. Two database instances with different configurations used alternately behave as if each were alone.',
     ['schedules', 'inputs', 'histories'], 'all interleavings of up to 6 steps with the listed operations at every position of the iterator, all keys, data and bounds',
     'Tests never modify the database while an iterator is open.',
     [E, D], [('embedDBNext resumes from nextDataPage/nextDataRec', E), ('shared read buffers in readPage/readToWriteBuf', E)], observe=['embedDBNext', 'embedDBNextVar', 'embedDBGet'])
prop('P34', 'Variable data survives a power loss together with its records',
     'After a power loss before any storage operation, every record that is still stored returns exactly the variable data it was inserted with, or reports it as lost if its pages had been recycled; the data of other records, old bytes or unwritten pages are never returned. With record-level consistency this includes all acknowledged inserts. Inserting then continues without overwriting unerased pages.',
     ['crash points', 'inputs', 'histories'], 'crash before every write/erase of the listed histories (also twice in a row), all variable data bytes, items spanning several pages, through two rounds of the variable-data file, storage that erases to 0xFF, 0x01 or keeps old bytes',
     'Tests restart after clean shutdowns only.',
     [E, D], [('embedDBInitVarDataFromFile', E), ('write order in embedDBPutVar', E)], observe=['embedDBInit', 'embedDBGetVar', 'embedDBVarDataStreamRead'])
prop('P33', 'Lookups and indexed queries stay within their I/O bounds, and the statistics are true',
     'The read and write counters equal the page accesses made at the storage interface since they were reset. A lookup never reads more data pages than the error window of the learned index allows (twice the configured maximum error plus one), with binary search never more than logarithmically many; repeating a lookup reads nothing; a query with the bitmap index reads only data pages whose stored bitmap overlaps the query, once each.',
     ['inputs', 'histories', 'configurations'], 'all keys, data, probe keys and bounds of the listed histories, flushes, wrap-around and restarts; maximum error 0 and 1',
     'Results stay correct when too much is read, so no functional test notices.',
     [E, D, S], [('linearSearch/splineSearch/binarySearch', E), ('counters in readPage, readIndexPage, readVariablePage, writePage', E), ('findIndexRecord/bitmapOverlap skipping', E)], observe=['storage interface calls', 'numReads, numWrites, numIdxReads, numIdxWrites'])

prop('P17', 'Storage is used as circular logs: one aligned erase per block, no page programmed twice, no junk read',
     'Whatever mix of inserts, flushes, queries, restarts and power losses happens, each file (data, index, variable data) is written as a circular log: page n goes to place n modulo the allocated pages, one after the other, each carrying its own number; nothing outside the allocated pages is touched; a page is never written twice without an erase in between; an erase covers exactly one aligned block, namely an unused one that is about to be written; the temporary pages of record-level consistency stay in the two blocks behind the current one. Outside recovery no page is read that was erased or never written.',
     ['inputs', 'histories', 'crash points', 'configurations'], 'all data, first key, flush / restart / crash choices of the listed histories through wrap-around; erase blocks of one to three pages; data, index, variable-data files, record-level consistency',
     'The desktop file interface used by the tests ignores erases and allows any write, so a violation of the flash discipline passes every test and destroys data on the hardware the library is made for.',
     [E, D], [('writePage, writeIndexPage, writeVariablePage, writeTemporaryPage', E), ('erase calls in the recovery functions', E)], observe=['storage interface calls'])
prop('P20', 'A successful flush makes everything inserted before it durable',
     'When embedDBFlush returns success, every record inserted before, its variable data and its bitmaps are in storage: if the power is lost at any storage operation afterwards, reopening succeeds and everything inserted before the flush is found with its data, by lookups, iterations and indexed queries, unless it has been recycled by later inserts (oldest block first). A flush with nothing to write writes and erases nothing. This holds for every configuration (search method, index, variable data, record-level consistency).',
     ['crash points', 'inputs', 'histories', 'configurations'], 'all keys, data, variable bytes; power loss before every storage operation of up to five inserts after the flush; earlier flushes at arbitrary positions; through wrap-around',
     'Tests flush and close cleanly; none loses power after a flush.',
     [E, D], [('embedDBFlush, embedDBFlushVar', E), ('recovery functions called by embedDBInit', E)], observe=['embedDBFlush', 'embedDBInit', 'embedDBGet', 'embedDBNext', 'embedDBGetVar'])
prop('P30', 'Memory and files are released exactly once, and only owned memory is touched',
     'Whatever operations were performed - lookups, abandoned iterations, partly read streams, queries never started or given up, failing storage at any point including recovery - every access stays inside the state, the buffers and the arguments as documented (buffer of bufferSizeInBlocks pages, keys of keySize, data of dataSize bytes), every call terminates, and after closing and freeing what the caller owns no memory is left and every file that was opened has been closed exactly once, also when embedDBInit refuses to open the database.',
     ['inputs', 'histories', 'fault schedules', 'configurations'], 'all sequences of two or three operations after up to 15 inserts, one or two failing storage operations of any kind at any point, data and first key arbitrary; all configurations',
     'Tests run without failing storage and with generously sized buffers, and do not measure leaks of abandoned queries.',
     [E, Q, D], [('embedDBInit*/embedDBInitFailed', E), ('embedDBClose, embedDBCloseIterator', E), ('embedDBFreeOperatorRecursive and the close functions', Q)], observe=['allocation balance', 'open/close calls', 'memory accesses'])
prop('P35', 'Queries leave the database unchanged',
     'Lookups, iterations (finished or abandoned), variable-data reads, query operators and resetting the statistics may be made anywhere between inserts, flushes and restarts: they never erase or write data or index pages, and all later operations return the same results and hand the same pages to the storage as if the queries had not been made. (Reading variable data may write out variable data that is still buffered.)',
     ['schedules', 'inputs', 'histories'], 'two runs of the same history compared, one with queries of every kind at one or two arbitrary positions, all probe keys and bounds, all keys or data; wrap-around, restarts and all configurations',
     'Tests query at the end of a history; a query that leaves its traces in a shared buffer shows in what is written later.',
     [E, Q, D], [('read buffers and write buffers in readPage, readToWriteBuf, embedDBGetVar', E), ('embedDBNext', E)], observe=['storage interface calls', 'return values'])
prop('P36', 'A reset starts an empty database, and sessions with different options share one history',
     'Initializing with the reset option starts an empty database whatever the data, index and variable-data files held before, also when they had wrapped: no old record, bitmap or variable data shows up, older keys are accepted again, and all later lookups, queries and restarts answer exactly for the new records. Without a reset, the records of all earlier sessions are found in each later session also when the search method changes between sessions or the index file is switched on later or off for a session.',
     ['inputs', 'histories', 'configurations'], 'two or three sessions, all keys and data of the later sessions, all probe keys and data bounds, a flush or none at each end, reset or none; with variable data, index, record-level consistency, wrapped files',
     'Tests start from a fresh file or reopen with the same options.',
     [E, D], [('embedDBInitData / embedDBInitIndex / embedDBInitVarData open modes and initial state', E), ('addIndexRecord first page of an index page', E)], observe=['embedDBInit', 'embedDBGet', 'embedDBGetVar', 'embedDBNext'])
