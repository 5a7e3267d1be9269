// Stand-in: names that headers mention (Arrow is not installed).
namespace arrow { class Table; class Status; class DataType; class Array; class ChunkedArray; class RecordBatch; class Scalar; }
