"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                   why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": observe, "hook_needed": None}), note))


prop("C01", "Spelling of column types never changes any output",
     "A schema whose column types are written with a documented alias (string, tinyint, int, integer, bigint, long, numeric, real, timestamp, blob, text, ...) or in any letter case "
     "produces exactly the same output as the canonically spelled schema for every export, generate and diff command.",
     ["inputs", "configurations"], "every column type, alias, letter case and command",
     "The tests load a few hand-written schemas in one spelling; no test compares two spellings of a schema across outputs.",
     ["format/octopus/column.go", "format/octopus/types.go", "format/octopus/io.go"],
     [("type normalisation on load", "octopus.LoadSchema, Column.NormalizeType")],
     ["files written by every CLI command"],
     "metamorphic monitor: both spellings run through all commands and compared byte for byte")
prop("C02", "Invalid input is refused, never half converted",
     "An input which is not a valid schema (broken JSON, an unknown or missing column type, a table or column which is null, a missing file, an unreadable workbook or DDL text) makes every command "
     "end with a nonzero status and a message, without a crash and without writing any output file.",
     ["inputs", "fault_sequences"], "every command and every kind of malformed or missing input",
     "Tests only feed well-formed inputs; the error paths of the readers have no tests.",
     ["format/octopus/io.go", "format/octopus/column.go", "format/octopus/errors.go", "main.go", "format/mysql/importer.go", "format/xlsx", "format/staruml", "format/ojson"],
     [("error propagation", "Action functions of every command"), ("validation on load", "octopus.LoadSchema")],
     ["exit status, stderr, scratch directory contents"],
     "fault-injection monitor: status, stderr and directory contents observed for each injected input fault")
prop("C03", "Written Octopus JSON is canonical and self-readable",
     "Every Octopus JSON document the tool writes (init and every import) is valid under the documented format: known keys only, canonical lower-case types, default values left out, and it is accepted by every "
     "command. Writing it does not depend on earlier content of the output file: the file holds exactly that one document, and what init writes is the sample schema of its documentation.",
     ["inputs", "histories"], "every importer and init, over fresh and pre-existing output files",
     "Tests build Schema values in memory and never read a written file back.",
     ["format/octopus/io.go", "format/octopus/cli.go", "format/octopus/column.go"],
     [("ToFile / JSON tags with omitempty", "octopus.Schema, Column")],
     ["db.json files written"],
     "format monitor over every document the importers write, plus re-reading loop")
prop("C04", "MySQL import yields exactly the schema the DDL declares",
     "Importing a MySQL DDL file yields one table per CREATE TABLE statement that is not excluded, with its columns in order, and each column's type, size, scale, nullability, keys, auto increment, default, on-update, enum/set values "
     "and comment, and each index, exactly as the DDL declares them, however the DDL is spelled. Author, version and excludes options take effect as documented.",
     ["inputs"], "every DDL text in the supported MySQL dialect",
     "One test imports a handful of fixed statements; the surface syntax is combinatorial.",
     ["format/mysql/importer.go", "format/mysql/cli.go"], [("AST walk of the parsed DDL", "format/mysql importer")], ["the db.json written by import mysql"],
     "reference-model monitor over generated DDL in many spellings")
prop("C05", "MySQL export is valid DDL declaring exactly the schema",
     "The MySQL DDL exported for a schema declares every selected table, column, type with size, nullability, default, comment, auto increment, primary key, unique constraint and index of the schema, and nothing else; literals are quoted so that "
     "any text survives, and functions are written unquoted.",
     ["inputs", "configurations"], "every schema, group filter and unique name suffix",
     "The test compares one table's text; types, defaults and quoting combine freely.",
     ["format/mysql/exporter.go", "format/mysql/cli.go"], [("column definition writer", "format/mysql exporter")], ["the .sql file written by export mysql"],
     "independent DDL parser reads the output back and compares fact by fact")
prop("C06", "MySQL export followed by import gives the schema back",
     "Exporting a schema to MySQL DDL and importing that DDL gives back the same tables, columns, types, sizes, keys, defaults, comments and indices, and a further round trip changes nothing.",
     ["inputs", "histories"], "every schema that MySQL DDL can express",
     "No test connects the exporter with the importer.",
     ["format/mysql/exporter.go", "format/mysql/importer.go"], [("exporter and importer agree", "format/mysql")], ["db.json after export+import"],
     "closed-loop monitor")
prop("C07", "The exported xlsx workbook shows exactly the schema",
     "The exported workbook has one sheet per group and a Meta sheet, and on them every table, column, type with size, key mark, null mark, attribute (default, on update, auto increment), reference with its relationship, description and index of the schema at its "
     "documented place, in both null-column modes.",
     ["inputs", "configurations"], "every schema and both null-column modes",
     "One test exports a fixed schema.",
     ["format/xlsx/exporter.go"], [("sheet writer", "format/xlsx exporter")], ["the .xlsx written by export xlsx"],
     "independent workbook reader compares cells with the schema")
prop("C08", "xlsx import yields exactly what the workbook states",
     "Importing a workbook laid out as documented yields the tables, groups, columns, types, sizes, keys, nullability, attributes, references with relationships, descriptions and indices stated on its sheets, whatever the cell storage form, attribute order, spacing, type alias or blank rows.",
     ["inputs", "configurations"], "every workbook in the documented layout",
     "One test imports one fixed workbook.",
     ["format/xlsx/importer.go"], [("sheet reader", "format/xlsx importer")], ["the db.json written by import xlsx"],
     "independent workbook writer, reference-model comparison")
prop("C09", "xlsx export followed by import gives the schema back",
     "Exporting a schema to xlsx and importing it in the same null-column mode gives the same schema back (up to what a workbook cannot hold), and repeating it changes nothing.",
     ["inputs", "histories"], "every schema and both null-column modes",
     "No test connects the exporter with the importer.",
     ["format/xlsx/exporter.go", "format/xlsx/importer.go"], [("exporter and importer agree", "format/xlsx")], ["db.json after export+import"],
     "closed-loop monitor")
prop("C10", "StarUML import yields exactly the ER model of the project",
     "Importing a StarUML project yields one table per ER entity with its columns, types, lengths, keys, nullability, documentation and references, independent of element order and of forward or backward references; a reference that cannot be resolved is reported as an error.",
     ["inputs"], "every StarUML ER project",
     "The importer has at most one fixed sample project.",
     ["format/staruml"], [("two-pass reference resolution", "format/staruml importer")], ["the db.json written by import staruml"],
     "reference-model monitor over generated projects")
prop("C11", "Octopus v1 import preserves the whole v1 schema",
     "Importing an Octopus v1 document yields the same tables, groups, class names, columns, types, sizes, scales, keys, nullability, defaults, descriptions and references in v2 form; types unknown to both versions and nameless columns are refused.",
     ["inputs"], "every v1 document, type spelling and table order",
     "Tests convert single fixed columns.",
     ["format/ojson"], [("v1 to v2 converter", "format/ojson")], ["the db.json written by import ojson"],
     "reference-model monitor over generated v1 documents")
prop("C12", "Exported DBML is valid and states exactly the schema",
     "The exported DBML declares every selected table with each column's type and size, its settings (pk, unique, not null, default, note) and each reference, inline or separate, once and with the right direction; text is escaped so that any description or default survives. Auto increment and indices are left out.",
     ["inputs", "configurations"], "every schema and group filter", "Few fixed tables are compared textually.",
     ["format/dbml"], [("DBML writer", "format/dbml exporter")], ["the .dbml file"], "independent DBML parser, fact comparison")
prop("C13", "Exported QuickDBD text states exactly the schema",
     "The exported QuickDBD text declares every table, column, type, key, nullability, default and reference of the schema, one line per column, with descriptions as comments that never break a line.",
     ["inputs"], "every schema", "Few fixed tables are compared textually.",
     ["format/quickdbd"], [("QuickDBD writer", "format/quickdbd exporter")], ["the .txt file"], "independent reader, fact comparison")
prop("C14", "The generated PlantUML diagram shows exactly the schema",
     "The generated diagram has one entity per table with its columns, types and key stereotypes, and one relation line per reference with the cardinality of its relationship, written to the named file or into the named directory.",
     ["inputs"], "every schema and output path", "Few fixed tables are compared textually.",
     ["format/plantuml"], [("template", "format/plantuml exporter")], ["the .wsd file"], "independent reader, fact comparison")
prop("C15", "The generated GraphQL schema is valid and covers the schema",
     "The generated GraphQL document is valid SDL with one object type per table, one field per column with the documented scalar type and nullability (ID for primary keys), and a query per type.",
     ["inputs"], "every schema", "Few fixed tables are compared textually.",
     ["format/graphql"], [("template", "format/graphql generator")], ["the .graphql file"], "independent SDL parser, fact comparison")
prop("C16", "The generated protobuf file is valid and covers the schema",
     "The generated proto3 file is accepted by protoc and has one message per selected table with one field per column of the documented type, relation fields (repeated for one-to-many) only to messages defined in the file, the needed imports, and the package and go_package options given.",
     ["inputs", "configurations"], "every schema and option combination", "Tests compare a few fixed messages and never run protoc.",
     ["format/protobuf"], [("generator and type map", "format/protobuf")], ["the .proto file"], "protoc acceptance plus independent reader")
prop("C17", "Protobuf field numbers are unique, stable and as configured",
     "Within every generated message, field numbers are positive and unique; column fields are numbered 1..n in column order whatever the relation options, and relation fields are numbered from relationTagStart upwards, downwards with relationTagDecr, and after the columns without it.",
     ["inputs", "configurations"], "every schema and relation tag option combination", "Tests sample two option values.",
     ["format/protobuf"], [("tag assignment", "format/protobuf generator")], ["the .proto file"], "number monitor over every message")
prop("C18", "Generated GORM models state exactly the schema",
     "The generated GORM file has one struct per selected table whose table name, fields, Go types, gorm tags (type, keys, unique and named indices, not null), embedded models and associations are those the schema, options and documentation determine.",
     ["inputs", "configurations"], "every schema and option combination", "Tests compare three fixed tables.",
     ["format/gorm"], [("generator", "format/gorm")], ["the .go file"], "go/parser reads the structs back; reference model comparison")
prop("C19", "Generated GORM models are valid Go",
     "The generated GORM file compiles for every schema: used packages are imported and unused ones are not, field and type names do not collide, and struct types are not recursive by value.",
     ["inputs", "configurations"], "every schema and option combination", "Tests compare text and never compile it.",
     ["format/gorm"], [("import collection, naming", "format/gorm")], ["the .go file"], "go/types as the sanitizer of generated code")
prop("C20", "Generated JPA Kotlin entities state exactly the schema",
     "Each selected table gets one entity class with the table name, unique constraint, annotations, one property per column with the documented Kotlin type, nullability, default and JPA annotations (id, generated value, lob, column attributes, audit timestamps, virtual relation), and exactly the imports they need.",
     ["inputs", "configurations"], "every schema and option combination", "Tests compare two fixed tables.",
     ["format/jpa"], [("entity template", "format/jpa")], ["the .kt files"], "independent Kotlin reader, reference model comparison")
prop("C21", "JPA packages, id classes and repositories fit the entities",
     "Entity and repository files lie in the directories of their packages below the output directory, one per class and none else; a table with a composite key gets an id class with exactly its key properties, and each repository refers to the entity and to its key type.",
     ["inputs", "configurations"], "every schema, package and key shape", "Tests never write files or repositories.",
     ["format/jpa", "util/io.go"], [("package directories, repository template", "format/jpa")], ["the .kt files and directories"], "directory and cross-file monitor")
prop("C22", "Generated SQLAlchemy models state exactly the schema",
     "Each selected table gets one model class with its table name, one attribute per column with the column's SQLAlchemy type and size, key, nullability, uniqueness and audit timestamp default, and its composite unique constraint, as documented.",
     ["inputs", "configurations"], "every schema and option combination", "Tests compare fixed tables.",
     ["format/sqlalchemy"], [("template", "format/sqlalchemy")], ["the .py files"], "python ast reads the classes back; reference model comparison")
prop("C23", "Generated SQLAlchemy modules are valid Python",
     "Every generated module parses, and imports every name it uses, in single-file and multi-file mode, so that importing it with SQLAlchemy installed succeeds.",
     ["inputs", "configurations"], "every schema and option combination", "Tests compare text and never import it.",
     ["format/sqlalchemy"], [("import collection", "format/sqlalchemy")], ["the .py files"], "modules executed against a strict SQLAlchemy stand-in")
prop("C24", "Liquibase changelog builds exactly the schema",
     "Applying the generated Liquibase changelog to an empty database yields exactly the selected tables with their columns in order, types with sizes and enum/set values, nullability, primary keys, auto increment, defaults of the right kind, remarks (of columns only with --comments) and unique constraints (a named constraint on a column that is already declared unique is limited by a precondition to the databases that take both), with unique change set ids and the author of the schema; whatever text the schema holds, the YAML stays well-formed.",
     ["inputs", "configurations"], "every schema and option combination", "Tests compare one fixed changelog.",
     ["format/liquibase"], [("changeset writer", "format/liquibase")], ["the .yaml file"], "changelog interpreter compared with the schema")
prop("C25", "Liquibase diff turns the old schema into the new one",
     "Applying the Liquibase diff to the database of the old schema succeeds, without referring to anything that does not exist at that point, and yields the database of the new schema for the tables of the chosen groups: added, removed, renamed and changed tables and columns (types, sizes, enum/set values, nullability, defaults, added auto increment; comments with --comments), primary keys and unique constraints. Indices, on-update values and removed auto increment cannot be expressed and are left out.",
     ["inputs", "histories"], "every pair of schemas", "Tests compare a few single edits.",
     ["format/liquibase/diff.go", "format/liquibase/generator.go", "format/diff/cli.go"], [("diff visitor", "format/liquibase/diff.go")], ["the .yaml file"], "changelog interpreter on histories of edits")
prop("C26", "Flyway diff turns the old schema into the new one",
     "The Flyway migration script is valid MySQL; executing it on the database of the old schema succeeds and yields the database of the new schema for the tables of the chosen groups: tables, columns with type, size, values, nullability, default, on-update and auto increment, primary keys and unique constraints (comments with --comments); other tables stay as they were. Indices are left out.",
     ["inputs", "histories"], "every pair of schemas", "Tests compare a few single edits.",
     ["format/diff/diff.go", "format/diff/mysql.go", "format/diff/flyway.go"], [("diff and SQL builder", "getDiff, MysqlQueryBuilder")], ["the .sql file"], "SQL migration interpreter on histories of edits")
prop("C27", "Markdown diff reports every difference and only those",
     "The Markdown diff names both versions and lists, in one section per table, every added, removed and renamed table and column, every changed type, size, enum/set value, nullability, default, on-update and auto increment, every changed primary key and unique constraint and, with --comments, every changed comment, with the values, and nothing that did not change. A table or column counts as renamed when an old name vanished and a new one appeared with otherwise identical content.",
     ["inputs", "histories"], "every pair of schemas", "Tests compare a few single edits.",
     ["format/diff/diff.go", "format/diff/markdown.go"], [("diff and report writer", "getDiff, MarkdownChangeSetWriter")], ["the .md file"], "independent differ compared with the report")
prop("C28", "Equal schemas have no difference, in any order and spelling",
     "Diffing two documents that describe the same schema (other table order, type aliases, JSON formatting, key order, written-out default values) reports nothing in any diff format, and rewriting the two sides of a diff in such ways never changes the diff.",
     ["inputs"], "every schema and every equivalent rewriting of it", "Tests only diff schemas built in one order.",
     ["format/diff/diff.go", "format/liquibase/diff.go", "format/octopus/io.go"], [("table matching by name", "getDiff, liquibase Diff.generate")], ["diff outputs"], "metamorphic monitor")
prop("C29", "Group filters select exactly the tables of those groups",
     "For every command with a groups option, the output for the chosen groups is what the command yields for a schema holding only the tables of these groups, up to references to tables left out; unset means all tables.",
     ["inputs", "configurations"], "every schema, group list and command", "Tests filter one fixed schema in one format.",
     ["format/octopus/filter.go", "format/*/cli.go"], [("table filter", "octopus.GetTableFilterFn")], ["files of every command with --groups"], "metamorphic monitor")
prop("C30", "Class names follow className, prefix and removePrefix",
     "In every generator the class or message of a table is its class name if it has one (where supported), else the group's prefix followed by the table name without its removed prefixes in upper camel case; entries of other groups have no effect.",
     ["inputs", "configurations"], "every schema and prefix/removePrefix value", "Tests use one prefix map.",
     ["format/common", "format/gorm", "format/jpa", "format/protobuf", "format/graphql", "format/sqlalchemy"], [("prefix mapper", "format/common")], ["class names in generated files"], "naming monitor over all generators at once")
prop("C31", "The same input always gives byte-identical output",
     "Running any command twice on the same input with the same options gives byte-identical files and status, in any process, environment, working directory and at any time.",
     ["inputs", "schedules", "configurations"], "every command, input, hash seed and environment", "Go randomises map iteration per process; a test sees one order.",
     ["format", "util"], [("ordered iteration", "all writers")], ["files of repeated runs"], "repeated-execution monitor")
prop("C32", "Documented option spellings are equivalent and required",
     "For every command each documented option gives the same result as --name value, --name=value, its alias, or its environment variable, an explicit option wins over the environment, and leaving out a required option fails with nothing written, as do unknown commands and options and options without a proper value; --help lists every option.",
     ["configurations"], "every command, option and spelling", "No test runs the command line.",
     ["main.go", "format/*/cli.go"], [("flag tables", "format/*/cli.go")], ["status and files of each spelling"], "metamorphic monitor over the command line")
prop("C33", "A command writes its output and nothing else",
     "A successful command creates or replaces exactly the files it is documented to write, leaving inputs and every other file as they were; when an output cannot be written the command fails with a nonzero status, and replaced files hold no remains of their old content.",
     ["inputs", "fault_sequences", "configurations"], "every command, output location, prior content and write fault", "Tests write to memory buffers only.",
     ["util/io.go", "format/*"], [("file writers", "util.WriteStringToFile")], ["directory snapshots before and after"], "file-system snapshot monitor with injected write faults")
prop("C34", "Unique constraints are named consistently in all outputs",
     "With a unique name suffix, every output that names the unique constraint of a table calls it table name plus suffix and covers exactly the table's unique columns, the same in every format.",
     ["inputs", "configurations"], "every schema and suffix", "Each format is tested alone with one table.",
     ["format/mysql", "format/gorm", "format/jpa", "format/liquibase", "format/sqlalchemy"], [("uniqueNameSuffix option", "format/*/cli.go")], ["constraint names in all outputs"], "cross-format agreement monitor")
prop("C35", "No valid or hostile input crashes a command",
     "On any input, however damaged or unusual, every command ends in bounded time with a status and, on failure, an error message; it never panics, hangs or ends by a signal.",
     ["inputs"], "every byte sequence as input of every command", "Tests use well-formed inputs.",
     ["main.go", "format/*"], [("error returns", "all readers")], ["exit status and stderr"], "mutation fuzzing with a crash monitor, race-instrumented")

prop("C36", "Schema diffs keep the data of everything that stays",
     "Executing the Liquibase or Flyway diff never drops and recreates what both schemas have: every table and column of the same name keeps its data, a table or column that was only renamed (same definition, new name) is renamed and keeps its data, and data is never moved into a table or column of another definition.",
     ["inputs", "histories"], "every pair of schemas, with any number of renames, swaps and look-alikes", "Tests compare single renames textually; nothing follows the data.",
     ["format/diff/diff.go", "format/diff/mysql.go", "format/liquibase/diff.go"], [("rename detection and statement order", "format/diff, format/liquibase")],
     ["provenance tags on a catalogue that executes the output"], "migration executor with data provenance tags")
prop("C37", "A migrated database equals one created anew",
     "A database created from an early version of a schema (exported MySQL DDL or generated Liquibase changelog) and kept current with the Flyway or Liquibase diffs, version by version or all at once, ends up with the same tables, columns, keys and constraints as one created from the last version.",
     ["inputs", "histories"], "every history of schema versions", "No test connects the creation scripts with the diffs or chains diffs.",
     ["format/diff", "format/liquibase", "format/mysql/exporter.go"], [("creation and migration agree", "format/mysql, format/liquibase, format/diff")],
     ["three catalogues that execute the outputs"], "history executor, differential comparison of catalogues")

prop("C38", "Large and densely linked schemas are handled whole and fast",
     "For schemas of hundreds of tables, columns, keys, enum values, indices or groups, texts of a hundred kilobytes, dumps with long data statements, and references linking the tables "
     "densely (chains, rings, cliques, layered graphs with exponentially many paths), every command ends within seconds of CPU time and a moderate amount of memory, and its output covers "
     "the last table, column, value or word just as the first; change sets of a Liquibase changelog have distinct ids.",
     ["inputs"], "every size and reference graph and every command",
     "The tests use schemas of one to three tables with at most one reference; growth, overflow and truncation show in large ones only.",
     ["main.go", "format/diff/diff.go", "format/liquibase/diff.go", "format/liquibase/generator.go", "format/gorm/generator.go", "format/mysql/importer.go", "format/xlsx", "format/staruml/importer.go"],
     [("pairing of renamed tables", "getDiff, Diff.generate"), ("recursive structs", "Generator.isRecursive"), ("change set ids", "LqId")],
     ["CPU time and peak memory of the process", "mentions of every unit in the written files"],
     "resource monitor (rusage of every process) and conservation check over the units of the input", )

prop("C39", "Tables are converted independently of one another",
     "What a command writes for a table depends only on that table (and the tables it refers to): for two schemas, or two pairs of versions, which share no table and no reference, every "
     "export, generate and diff command writes for the joined schema exactly the lines it writes for the one plus the lines it writes for the other (headers stated once, imports united, "
     "change sets renumbered), in whatever order the tables are given; and importing two MySQL or v1 inputs joined into one gives the tables of both.",
     ["inputs", "configurations"], "every two schemas without a common table, and every command and option set",
     "State that leaks from one table to the next (a set not cleared, a flag not reset, a name remembered) needs a certain table before a certain other; the tests convert one or two tables.",
     ["format/sqlalchemy/generator.go", "format/mysql/importer.go", "format/protobuf/generator.go", "format/liquibase", "format/diff", "format/jpa", "format/xlsx/exporter.go", "format/gorm/generator.go"],
     [("per table state", "GenerateStruct, Generate, TableX.Enter, getDiff, newPbMessage")],
     ["lines of all written files, tables of the imported schema"],
     "metamorphic monitor: line multisets of the joined and the separate conversions", )


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 run.py %s" % p["id"],
                "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p["id"],
                "technique": "runtime monitoring: " + note,
                "level": "exploration",
                "level_note": "The real CLI, built from the working tree, is executed on thousands of seeded inputs and every "
                              "observation is judged by an oracle written independently of the code; what was not executed is not "
                              "covered. Trusts the oracle and reader in /verif/vlib and the generators' notion of valid input."})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: all monitors observe the built command line tool from outside. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
