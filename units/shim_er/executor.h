// Stand-in for QueryEngine/Execute.h (which needs Arrow): the interface ExpressionRange.cpp uses.
#pragma once
#define QUERYENGINE_EXECUTE_H
#include "DataMgr/ChunkMetadata.h"
#include "DataProvider/TableFragmentsInfo.h"
#include "IR/Expr.h"
#include "Logger/Logger.h"
#include "QueryEngine/ExpressionRange.h"
#include "QueryEngine/QueryPhysicalInputsCollector.h"
#include "Shared/Config.h"
#include "Shared/SqlTypesLayout.h"
struct InputTableInfo {
  int db_id;
  int table_id;
  std::shared_ptr<const TableFragmentsInfo> info;
};
struct Dictionary {
  int32_t getIdOfString(const std::string&) const;
};
class Executor {
 public:
  const Config& getConfig() const;
  bool containsLeftDeepOuterJoin() const;
  ExpressionRange getColRange(const PhysicalInput&) const;
  std::shared_ptr<int> getRowSetMemoryOwner() const;
  Dictionary* getStringDictionaryProxy(int, std::shared_ptr<int>, bool) const;
};
