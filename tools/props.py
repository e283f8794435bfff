p('C01','The exit status is a faithful verdict of the scan',
 'For every list of findings, every severity and confidence threshold, every combination of flags and every set of scan errors, the process exits with a failing status exactly when the user has not asked for no-fail and either a scan error was recorded or at least one finding that meets both thresholds is not suppressed. The report lists exactly the findings that meet both thresholds, and its "found" count equals the number of those that are not suppressed.',
 ['inputs','configurations'],'all finding lists up to the stated length with arbitrary severity, confidence, suppression and ignored marks; all thresholds; all flag combinations involved; with and without scan errors',
 'The command tests only exercise the sorting helper; no test runs the verdict logic, and the outcome depends on the cross product of thresholds, suppression kinds, flags and errors.',
 ['cmd/gosec/main.go'],[('threshold filter, counting and exit decision','cmd/gosec/main.go: convertToScore, filterIssues, exit, main')],['process exit status','reported issue list and stats.found'])
p('C02','Sorting findings loses nothing and is a deterministic severity-first order',
 'For every list of findings the sorted report contains the same findings (each exactly as often), in descending order of severity, then description, then file, then starting line. The order of findings that differ in any of those keys does not depend on the order in which they were discovered.',
 ['inputs','schedules'],'all finding lists up to the stated length with arbitrary keys and line or line-range values, in every arrival order',
 'Arrival order depends on goroutine scheduling and map iteration; the tests sample two or three fixed lists.',
 ['cmd/gosec/sort_issues.go'],[('comparison chain','cmd/gosec/sort_issues.go: sortIssues, extractLineNumber')],['order of issues in every report'])
p('C03','In-source suppression covers exactly the annotated code and the named rules',
 'A finding is suppressed by in-source directives exactly when some directive in the same file covers or is covered by the line range of the finding and names its rule or no rule at all; a directive never suppresses or alters the record of another finding. This holds for every set of directives and findings and does not depend on the order in which directives are discovered, and the suppression records attached to a finding are exactly those of the directives that apply to it.',
 ['inputs','schedules'],'all sets of up to the stated number of directives and findings with arbitrary line ranges, files and rule sets, and every iteration order of the comment map',
 'Directives are gathered from a map whose iteration order is random and tests use at most two non-overlapping directives at fixed lines.',
 ['analyzer.go'],[('directive store and lookup','analyzer.go: ignores.add, ignores.get, getSuppressionsAtLineInFile, updateIssues')],['suppressions and presence of issues in Report()'])
p('C04','Suppression comments are parsed by one exact grammar',
 'A comment suppresses findings exactly when its text starts with the active tag or has it at the start of a line, or is a gosec:disable directive; exactly the rule IDs written before a double dash are suppressed (all rules if none is named), and the text after the dashes is kept as justification. Rule IDs that occur only in the justification never widen or narrow the suppression.',
 ['inputs'],'all comment texts built from bounded symbolic text around the tag, the rule list and the justification; default and alternative tags',
 'The grammar is a combination of several regular expressions and string splits over arbitrary comment text, tests check a dozen literal comments.',
 ['analyzer.go','helpers.go'],[('directive recognition and splitting','analyzer.go: ignore, findNoSecDirective, findNoSecTag')],['Report() for sources with comments'])
p('C05','Rule selection runs exactly the requested checks',
 'For every include list and exclude list, the set of active rules and analyzers is exactly the included ones (all when no include list is given) minus the excluded ones. When suppression tracking is on, deselected checks stay loaded but every finding they raise is marked as externally suppressed, and no finding of a selected check is.',
 ['configurations'],'all include and exclude lists of up to the stated number of arbitrary rule identifiers, tracking on and off, over the full rule and analyzer tables',
 'The tests use single-element filters; interplay of include, exclude and tracking over the whole rule table is not exercised.',
 ['rules/rulelist.go','analyzers/analyzerslist.go','analyzer.go','rule.go'],[('filters and suppression marks','rules/rulelist.go: Generate, NewRuleFilter; analyzers/analyzerslist.go: Generate; rule.go: RuleSet')],['set of loaded rules; suppressions in Report()'])
p('C06','Every finding carries identity, weakness class, location and text',
 'Every finding names the rule that raised it, a weakness class that exists in the catalogue, the file, the first and last line and the column of the flagged code, and a snippet made of consecutive, correctly numbered source lines that contains every flagged line. This holds for every position and extent of the flagged code in the file, including the first and the last line.',
 ['inputs','programs'],'all rule identifiers of the rule tables, all start and end lines and file lengths within the bound',
 'Tests look at a few nodes in the middle of short files; the rule table and weakness table are maintained by hand in different files.',
 ['issue/issue.go','cwe/data.go','analyzers/util.go'],[('finding construction','issue/issue.go: New, GetLine, codeSnippet, GetCweByRule; analyzers/util.go: newIssue; cwe/data.go: Get')],['issue.Issue fields'])
p('C07','Conversions of constants are reported exactly when the value does not fit',
 'A conversion of an integer constant value held in a variable to an integer type is reported as an overflow exactly when the value is outside the range of the target type, for every value and every pair of integer types.',
 ['inputs','programs'],'all integer values of every source type and all source/target integer type pairs',
 'There are 2^64 values and over a hundred type pairs; the tests sample a handful of pairs.',
 ['analyzers/conversion_overflow.go','analyzers/util.go'],[('range test of type pairs and constants','analyzers/conversion_overflow.go: isIntOverflow, isConstantInRange, parseIntType')],['G115 issues'])
p('C08','A guarded integer conversion is silent only when the guards make it safe',
 'When a conversion between integer types is dominated by comparisons of the converted variable with constants, no overflow is reported only if every value of the variable that reaches the conversion fits the target type, and an overflow is not reported when simple upper and lower bound checks exclude every non-fitting value. This holds for every constant, comparison operator, operand order and branch in which the conversion is placed, within the supported guard shapes; a parsed value is taken to fit exactly when the bit size of every parse it can come from fits.',
 ['programs','inputs'],'guard shapes enumerated in the bounds, every comparison operator, every constant value, every value of the guarded variable',
 'The answer depends on constants at the edges of the target ranges; each test uses one constant per shape, mostly the exact limits.',
 ['analyzers/conversion_overflow.go'],[('range derivation from branch conditions','analyzers/conversion_overflow.go: isSafeConversion, getResultRange, updateResultFromBinOp')],['G115 issues'])
p('C09','Out-of-range slice accesses with constant bounds are reported exactly',
 'Indexing or re-slicing a slice created with constant length and capacity by constant indices is reported exactly when the access is out of range at run time, for every length, capacity and index, directly, through re-slices and when passed to a function. A slice bound of zero after the colon, re-slices that extend beyond the length, and accesses behind length checks other than equality are outside the property.',
 ['programs','inputs'],'all non-negative length, capacity and index values within the stated range and the program shapes stated in the bounds',
 'The tests fix lengths and indices; the arithmetic at the boundary (len, cap, len-1) is only sampled.',
 ['analyzers/slice_bounds.go'],[('bounds tracking','analyzers/slice_bounds.go: runSliceBounds, trackSliceBounds, checkAllSlicesBounds, isSliceIndexInsideBounds')],['G602 issues'])
p('C10','Permissive file modes are reported exactly when they exceed the configured limit',
 'For every literal permission value in any Go integer notation and every configured limit, creating a file or directory, changing a mode or writing a file is reported exactly when the mode grants a permission bit that the limit does not grant.',
 ['inputs','configurations'],'all permission values and all configured limits up to 12 bits, octal, hexadecimal, binary and decimal notation, string and numeric configuration',
 'Tests use three or four literal modes; the rule is a bit-subset relation over a pair of values.',
 ['rules/fileperms.go','helpers.go'],[('mode subset test and configuration','rules/fileperms.go: modeIsSubset, getConfiguredMode, Match; helpers.go: GetInt')],['G301, G302, G306, G307 issues'])
p('C11','Weak RSA key sizes are reported exactly below 2048 bits',
 'For every literal key size, generating an RSA key is reported exactly when the size is below 2048 bits, whatever name the package is imported under.',
 ['inputs','programs'],'all literal key sizes up to 5 digits, decimal and hexadecimal',
 'Tests use two sizes.',['rules/rsa.go'],[('size test','rules/rsa.go: Match')],['G403 issues'])
p('C12','Each TLS configuration is judged on its own settings',
 'A TLS configuration literal is reported for its protocol versions exactly when the lowest version it allows is below the configured floor or its highest is below the configured ceiling, for every version value given as a number, a constant or a variable initialised with one, and in whatever form the literal is written (behind pointers, aliases, elided in slices, arrays and maps); skipping verification is reported when set to true, not preferring the cipher suites of the server when set to false, and cipher suites outside the approved list are reported, in literals and in assignments to the fields of a configuration. The verdict for one literal does not depend on any other literal or assignment analysed before or after it.',
 ['inputs','programs','histories'],'all 16-bit version values in the minimum and maximum fields, sequences of up to two literals and assignments in one file, in any order',
 'The rule keeps mutable state between syntax nodes; tests analyse one configuration per file with named constants.',
 ['rules/tls.go','rules/tls_config.go'],[('per-literal version tracking','rules/tls.go: processTLSConf, checkVersion, resetVersion, Match')],['G402 issues'])
p('C13','SARIF output is internally consistent and preserves every finding',
 'In every SARIF report each result refers, by index and by identifier, to the one rule descriptor with its own rule identifier, descriptors are unique, every weakness reference resolves to a listed entry, and levels, locations, snippets and suppressions are those of the findings in the same order. This holds for every list of findings in any order of rules.',
 ['inputs','histories'],'all finding lists up to the stated length over arbitrary rule identifiers, severities, weakness classes, lines and suppressions',
 'Rule indices depend on the order in which rule identifiers first appear; the test has one fixed sequence.',
 ['report/sarif/formatter.go','report/sarif/builder.go'],[('rule table and index','report/sarif/formatter.go: GenerateReport, addRuleInOrder, parseSarifRule')],['SARIF document'])
p('C14','Reports give paths relative to the root that contains the file',
 'In formats that use relative paths, a finding is located relative to a scanned root that really is an ancestor directory of its file, at a path component boundary, and every finding under some scanned root is reported. A sibling directory whose name merely starts with the name of a root is never taken for that root, and the result does not depend on the order of the roots.',
 ['inputs'],'all roots and file paths composed of bounded symbolic components, one and two roots in either order',
 'Tests use one root and one file below it.',
 ['report/sonar/formatter.go','report/sarif/formatter.go'],[('root prefix handling','report/sonar/formatter.go: getFilePath, parseFilePath; report/sarif/formatter.go: parseSarifArtifactLocation')],['Sonar and SARIF documents'])
p('C15','Every report format carries every finding with its own data',
 'For every list of findings, each machine-readable format (JSON, YAML, CSV, JUnit, SonarQube, SARIF) and each textual format (text, golint) lists every unsuppressed finding exactly once, with its own data in every field that the format has (file, line, rule or weakness, severity, confidence, description, code), so the formats agree with each other. The textual summary counts equal the scan statistics.',
 ['inputs'],'all finding lists up to the stated length with arbitrary field values, every format',
 'Format tests render one issue.',
 ['report/formatter.go','report/csv/writer.go','report/golint/writer.go','report/junit/formatter.go','report/sonar/formatter.go','report/text/writer.go','report/json/writer.go','report/yaml/writer.go'],[('format dispatch and writers','report/formatter.go: CreateReport and the writers of each format')],['report documents'])
p('C16','XML reports are well formed for every finding text',
 'The JUnit report is a well-formed XML document whose test-case text decodes back to the description, file and code of the finding, whatever characters these contain (characters XML cannot represent are replaced).',
 ['inputs'],'all descriptions, file names and code snippets with bounded symbolic characters',
 'The test issue contains no character that needs escaping outside the code snippet.',
 ['report/junit/formatter.go','report/junit/types.go'],[('text generation and raw XML embedding','report/junit/formatter.go: generatePlaintext, GenerateReport')],['JUnit document'])
p('C17','Producing one report never changes another',
 'When a scan is rendered both on the standard output and to a file, in any two formats, each document is the one that would have been produced alone; rendering does not change the findings, so the exit status and suppressed findings in formats that include them are unaffected.',
 ['inputs','histories'],'all pairs of formats, all finding lists up to the stated length with any suppression pattern',
 'No test renders two reports from the same data.',
 ['report/formatter.go','cmd/gosec/main.go'],[('suppression filter of the report data','report/formatter.go: CreateReport, filterOutSuppressedIssues')],['report documents'])
p('C18','Every requested package is analysed once under every schedule',
 'For every number of workers, every number of packages and every interleaving of the workers, each requested package is loaded exactly once with the requested build tags, every finding and every load error is recorded exactly once, and the scan terminates, also when a package has malformed errors and processing stops early.',
 ['schedules','inputs'],'all schedules of up to the stated number of workers and packages at the granularity of channel, lock and load operations; any worker count',
 'The build-tag state is shared by concurrent loads; tests run with one worker or one package.',
 ['analyzer.go'],[('worker pool','analyzer.go: Process, load, AppendError, ParseErrors')],['Report(), error map, termination'])
p('C19','Configuration switches mean what they say',
 'A global option is enabled exactly when its value is a true boolean or one of the documented enabled words, for every value in the configuration; setting an option never changes another, and an option that was never set is reported as not set. Values read from a configuration document are the ones the rules see.',
 ['configurations'],'all option names and values with bounded symbolic text',
 'Tests use three literal values.',
 ['config.go'],[('global option access','config.go: SetGlobal, GetGlobal, IsGlobalEnabled, ReadFrom')],['config API, suppression behaviour'])
p('C20','Call-based rules follow the package, not the spelling of its import',
 'A call to a listed function of a listed package is recognised exactly when the called identifier resolves to an import of that package, whatever local name it is imported under (also with a dot) and however its path is quoted, and never when the same spelling refers to something else: a variable, or a function of the scanned package. A blocklisted import is reported under the same conditions.',
 ['programs','inputs'],'all import local names of the stated length, import forms (plain, alias, blank, dot) and rule tables',
 'Tests exercise the default spelling and one alias.',
 ['helpers.go','import_tracker.go','call_list.go'],[('import resolution','helpers.go: GetImportedNames, GetImportPath, MatchCallByPackage; import_tracker.go; call_list.go')],['issues of the call-based rules'])
p('C21','No accepted program crashes the scanner',
 'For every well-typed program in the supported shapes, every rule and analyzer terminates without a panic, so a scan always ends with a report.',
 ['programs'],'the program shapes stated in the bounds with symbolic literals',
 'Tests only contain programs that someone thought of; rules index argument lists and dereference resolver results under implicit assumptions.',
 ['rules','analyzers','resolve.go','helpers.go'],[('syntax-directed matching','rules/*.go Match methods; analyzers/*.go; resolve.go: TryResolve')],['termination of a scan'])
p('C22','Suggested fixes are attached to the findings they were generated for',
 'When fix suggestions are requested, each finding receives the suggestion generated for its own description, each distinct description is requested at most once, and a failed request is reported without attaching a wrong suggestion to any finding.',
 ['inputs','fault_sequences'],'all finding lists up to the stated length with arbitrary descriptions and every pattern of failing requests',
 'The mock tests have one or two findings with fixed descriptions.',
 ['autofix/ai.go'],[('suggestion cache','autofix/ai.go: generateSolutionByGemini')],['issue autofix field'])
p('C23','Command, path, URL and query arguments are judged by what they are made of',
 'A subprocess launch is reported exactly when some argument is not made of constants, a file access exactly when its path is, or is concatenated or joined from, a variable that does not resolve to constants and was not cleaned, a request exactly when its URL is such a variable or a package variable, and SQL text built by concatenation exactly when an operand is not constant. Arguments made only of literals, constants, concatenations and once-declared variables of these resolve to constants, for every nesting, operator order, parenthesisation and form of declaration; function parameters passed on unchanged are trusted in launches.',
 ['programs','inputs'],'expression trees up to the stated depth over every kind of operand and every form of declaration; arbitrary SQL text in the first literal',
 'Tests contain fixed programs; the recursion over expression shapes and declarations is not covered.',
 ['resolve.go','helpers.go','rules/subproc.go','rules/readfile.go','rules/sql.go','rules/ssrf.go'],[('constant resolution','resolve.go: TryResolve; helpers.go: FindVarIdentities, GetBinaryExprOperands; rules/subproc.go, rules/readfile.go, rules/sql.go, rules/ssrf.go')],['G204, G304, G202, G107 issues'])
p('C24','Hard-coded credentials are reported exactly per the configured pattern',
 'A string literal assigned to, compared with or declared under a name matching the credential pattern is reported exactly when the configured entropy test (or its bypass) accepts it, for every configuration of thresholds; a non-matching name with a harmless value is never reported.',
 ['inputs','configurations'],'all names of bounded length, all supported assignment forms, pattern and entropy switches',
 'Tests use a fixed set of names and values.',
 ['rules/hardcoded_credentials.go'],[('name pattern and entropy gate','rules/hardcoded_credentials.go: Match')],['G101 issues'])
p('C25','The scan covers exactly the requested files, each once',
 'Every file that belongs to a requested directory (or, for a path ending in "...", to a directory below it that is not excluded), is part of the build for the given tags and system, and is not left out as a test or generated file by the flags, is analysed exactly once, and no other file is. This holds for every combination of requested paths, also when they overlap, and a directory is excluded only by the names of whole path components.',
 ['inputs','configurations'],'a directory tree with every kind of file; all combinations of the stated paths and flags; all paths of bounded length against excluded names',
 'Tests list one directory with one excluded name and never scan a tree through the command.',
 ['analyzer.go','helpers.go','cmd/gosec/main.go'],[('package discovery, file selection and loading','helpers.go: PackagePaths, ExcludedDirsRegExp; analyzer.go: Process, load, CheckRules')],['issues, statistics, process exit status'])
p('C26','The findings of a package do not depend on what was scanned before',
 'Scanning a package gives the same findings, with the same severity, text and suppression, and adds the same amounts to the statistics, whatever packages the same scanner has analysed before; the order of the files of a package does not matter; and after a reset a scanner with its checks loaded again is indistinguishable from a new one, also in its errors and statistics.',
 ['histories','programs'],'all ordered pairs, and long sequences in both directions, of programs with every construct a check remembers; symbolic TLS versions',
 'Tests build a new scanner for every sample and scan one package with it.',
 ['analyzer.go','rules'],[('state kept between nodes, files and packages','analyzer.go: CheckRules, CheckAnalyzers, Reset; rules/implicit_aliasing.go, rules/readfile.go, rules/tls.go, rules/integer_overflow.go, rules/decompression-bomb.go')],['Report(): issues, statistics, errors'])
p('C27','References to loop variables are reported exactly where iterations share them',
 'The address of the value variable of a range loop is reported exactly when it is taken within the loop, of that variable or of a part of it, is not what the function returns, and the version of Go, however it is written, is older than 1.22.',
 ['programs','inputs'],'all versions 1.N with every kind of suffix; the stated loop bodies and pairs of them',
 'Tests use fixed programs and three versions.',
 ['rules/implicit_aliasing.go','helpers.go'],[('loop variables and the Go version','rules/implicit_aliasing.go: Match; helpers.go: GoVersion, parseGoVersion')],['G601 issues'])
p('C28','Dropped errors are reported exactly',
 'A call statement is reported exactly when one of the results of the call is an error and the function is not exempt; in audit mode an assignment is also reported exactly when it assigns an error to the blank identifier. Exempt are the built-in functions and methods and those that the configuration names, whatever expression the receiver of a method is and however the package is imported.',
 ['programs','configurations'],'the stated statements and receivers; arbitrary names of exempt functions of bounded length',
 'Tests contain a few fixed statements.',
 ['rules/errors.go','call_list.go','helpers.go'],[('unhandled errors','rules/errors.go: Match; call_list.go: ContainsCallExpr; helpers.go: GetCallInfo')],['G104 issues'])
p('C29','Parsed numbers and compressed streams are followed through their variables',
 'A conversion to a 16 or 32 bit integer is reported by G109, and an unlimited copy by G110, exactly when its operand is a variable that was assigned the result of strconv.Atoi or of a decompressor: whatever the name, scope or file of the variable, the form of the assignment and the position in it, and never for another variable.',
 ['programs','inputs'],'all sources, assignment forms, uses and scopes in the stated lists with arbitrary names of the variables',
 'Tests assign to new local variables only.',
 ['rules/integer_overflow.go','rules/decompression-bomb.go'],[('tracked variables','rules/integer_overflow.go: Match; rules/decompression-bomb.go: Match, containsReaderCall')],['G109, G110 issues'])
p('C30','Formatted SQL is reported exactly when text can get into it',
 'A query whose text is formatted is reported exactly when the format has an SQL keyword followed by white space and a verb that prints more than numbers, and some argument is neither constant nor quoted. This and the check of concatenated queries hold wherever the call is made, whatever expression the database or transaction is, and whether the text is passed directly or through a variable declared with it.',
 ['programs','inputs'],'all formats of bounded length; the stated places, receivers and forms of declaration, with arbitrary names',
 'Tests format a literal into a new variable and pass it in an assignment.',
 ['rules/sql.go','helpers.go'],[('formatted queries','rules/sql.go: checkQuery, checkFormatting, findQueryArg; helpers.go: GetCallInfo')],['G201, G202 issues'])
p('C31','Network and file settings are judged by their value, wherever it is written',
 'Listening is reported exactly when the host of the address that is passed is empty, 0.0.0.0 or [::]; creating a file exactly when its path starts with a shared temporary directory; a served directory exactly when it is the root or matches the configured pattern; a server exactly when it sets neither a read timeout nor a read header timeout. It makes no difference whether the value is a literal, a composed or named constant, a converted one or (for addresses) a variable declared with it, how the package is imported, or how the type of the server is written.',
 ['programs','configurations'],'all addresses, paths and directory names of bounded length in the stated places; all combinations of the fields of a server',
 'Tests contain literals in the plainest place.',
 ['rules/bind.go','rules/tempfiles.go','rules/directory_traversal.go','rules/http_serve.go','rules/slowloris.go'],[('values of arguments and fields','rules/bind.go: Match; rules/tempfiles.go: Match; rules/directory_traversal.go: Match; rules/slowloris.go: Match, containsReadHeaderTimeout; helpers.go: GetIdentStringValues')],['G102, G111, G112, G303 issues'])
p('C32','Text from outside is reported where it enters templates and paths',
 'A conversion to a type of html/template that is not escaped is reported exactly when its operand is not constant, and joining a path exactly when an argument is the name of an entry of an archive, whether the argument is the field itself or a variable declared with it, whatever the receiver, the import name and the position.',
 ['programs'],'the stated operands, types and places with arbitrary names',
 'Tests use one form each.',
 ['rules/templates.go','rules/archive.go'],[('untrusted operands','rules/templates.go: Match; rules/archive.go: Match')],['G203, G305 issues'])
p('C33','Encryption is reported exactly when the nonce is fixed, where it is passed on',
 'A call that encrypts with a nonce is reported exactly once when the nonce is the same in every run: a literal, a converted constant, zeroed memory that nothing random was read into, or the result of a function that reads nothing random. It is not reported when the nonce was filled from the random generator of the system or comes from outside of the function, nor when the fixed data is another argument. This holds through wrappers that pass on their parameters, and for any number of uses of the same data.',
 ['programs'],'28 kinds of nonces, with arbitrary text and bytes, and 24 calls; arbitrary names of wrappers; several calls with the same data',
 'Tests have one fixed or random nonce in a new variable passed to one function.',
 ['analyzers/hardcoded_nonce.go'],[('where nonces come from','analyzers/hardcoded_nonce.go: runHardCodedNonce, raiseIssue, iterateThroughReferrers, isFuncContainsCryptoRand, filledByCryptoRand')],['G407 issues'])
p('C34','The statistics count what was analysed',
 'The numbers of a scan say how many files were analysed, how many lines these have, and how many of their comments are suppression directives in force: each file, line and directive is counted once, wherever it is and whatever the form of the comment, and nothing that is left out (generated files, when they are excluded; directives, when they are ignored) is counted.',
 ['inputs','programs'],'comments behind any two lines of a file with one symbolic text, all ends of lines and files; packages of up to four files of six kinds, up to two packages',
 'Tests compare the numbers for a few fixed files with one directive.',
 ['analyzer.go'],[('counting','analyzer.go: CheckRules, ignore, Metrics')],['Metrics of Report, Stats of the reports'])
p('C35','The errors of the scanned code are reported with their file, line and column',
 'Code that does not parse or type-check is not passed over in silence: every error that loading a package gives is kept under the file it is in, with its own line, column and text, whatever the characters of the path; the report lists them per file in the order of the lines, beside the findings in the rest of the code, and the run fails.',
 ['inputs','programs'],'up to three errors with lines of up to three and columns of up to two digits, paths of up to five arbitrary characters; files with errors at any of five lines, in directories with usual and unusual names',
 'Tests have one error in one file with a plain path.',
 ['analyzer.go','errors.go','cmd/gosec/main.go'],[('reading and sorting of errors','analyzer.go: ParseErrors, AppendError; errors.go: sortErrors')],['Errors of Report, Golang errors of the reports, exit status'])
p('C36','A run that cannot do its work fails',
 'When gosec cannot do what it was asked for, the run ends with a failure, whatever it found and even if findings are not to fail it: options with unknown values, a configuration that cannot be read, a selection without rules or packages, a log that cannot be created, and above all a report that is not written in full, in any format, to a file or to the standard output, because its writer fails at any point.',
 ['fault_sequences','inputs'],'20 failures of the command, with and without findings and -no-fail, for reports in each format; a writer that fails at any of 17 places in a report, once or for good',
 'Tests write reports to buffers, which never fail, and never run the command.',
 ['report/formatter.go','report/csv/writer.go','report/golint/writer.go','cmd/gosec/main.go'],[('writing','report/*/writer.go: WriteReport; cmd/gosec/main.go: saveReport, printReport, main')],['error of CreateReport, exit status'])
p('C37','The generated TLS tables are those of the recommendation',
 'The generator of the TLS checks takes over from a recommendation its lowest and highest protocol version, whatever the order in which they are listed and whichever of them Go does not know, and each cipher suite that it names, under every name a Go program may use, in its order and no other; a recommendation that is missing or has no known version is an error.',
 ['inputs'],'sequences of up to three versions with arbitrary minor digits, up to five suites of two kinds, one arbitrary; two recommendations in the generated source',
 'The generator has no tests.',
 ['cmd/tlsconfig/tlsconfig.go','cmd/tlsconfig/tls_version.go','cmd/tlsconfig/rule_template.go'],[('tables','cmd/tlsconfig: getGoCipherConfig, mapTLSVersions, generatedRuleTmpl')],['generated source'])
p('C38','No text of a finding becomes code in the HTML report',
 'The HTML report shows every finding that is not suppressed, in its order and with its own data, and whatever the characters of descriptions, code, paths, suggestions and errors, they are nothing but data in the page: what is around the data is the same page for all findings, and no text can end the script or the string it is in.',
 ['inputs'],'texts of up to three (four) arbitrary significant characters in any field, behind text that begins a tag or a template action; up to three findings, also repeated ones',
 'Tests do not look into the page.',
 ['report/html/writer.go','report/html/template.html','report/formatter.go'],[('page','report/html: WriteReport and its template')],['bytes of the page'])

