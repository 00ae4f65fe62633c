import json,subprocess
log=subprocess.run("git -C /repo log --format='%h %s'",shell=True,capture_output=True,text=True).stdout.split("\n")
def h(sub):
    for l in log:
        if sub in l: return l.split()[0]
    raise Exception(sub)
F=[]
def fixed(pid,sub,what):
    c=h(sub)
    F.append({"property":pid,"status":"fixed","commit":c,"what":"fixed: property=%s %s %s"%(pid,c,what)})
def known(pid,id,sub,case,what):
    F.append({"property":pid,"status":"known","id":id,"sub":sub,"case":case,"what":what})
fixed("C01","quote values beginning","values beginning with loop_/stop_, or holding Unicode white space, were written unquoted and re-read as something else")
fixed("C01","keep text values that look","text values looking like a line-folding or prefix header were altered by a write/read cycle (also C05)")
fixed("C04","honour wraplength","wraplength/maxoutlength given to the constructor or WriteOut were ignored or crashed")
fixed("C02","keep empty-list loop values","empty-list loop values vanished, nameless loops were accepted, a save frame of the block's name received the block's items")
fixed("C01","quote table keys","table keys holding quotes or line ends were written unreadable")
fixed("C02","do not drop text-field lines","lines of a text field beginning with # vanished")
fixed("C02","treat CR and CRLF","CR and CRLF line endings were not recognised everywhere")
fixed("C02","accept unquoted CIF1.1","unquoted CIF 1.1 values beginning with a brace were rejected")
fixed("C04","fold lines no later","folded lines exceeded the requested width (also C05)")
fixed("C05","keep folded lines within","folded lines ending in a backslash exceeded the width")
fixed("C07","return the (empty) file","empty input raised AttributeError instead of returning an empty file (also C06)")

fixed("C07","compiled scanner no longer fails","the compiled scanner ended in SystemError on non-ASCII input")
known("C06","flex-1.0-bracket","valid_1_0",{"ch":[2,0],"eol":"lf","g":"1.0","model":[{"items":[["l",["_a","_a1","_a2"],[["]","",""]]]],"name":"a","saves":[]}]},
 "the compiled scanner rejects bare CIF 1.0 values beginning with [ or ]")
fixed("C06","does not drop the text of an unfinished","the compiled scanner skipped text of unfinished text fields and of lines with unusual characters")
fixed("C08","do not take a bare loop_","loop_ directly as a data value was accepted")
fixed("C08","reject surplus delimiters","text glued to a closing CIF2/STAR2 delimiter was accepted")
fixed("C08","reject repeated sibling","repeated save frames in one block and over-long names inside frames were accepted")
fixed("C08","detect repeated save frames at every","repeated nested save frames were accepted")
fixed("C12","accept same-named save frames","a second block holding a save frame of the same name was refused or lost its frame")
fixed("C09","ReadStar works without","ReadStar without a prepared object raised")
fixed("C09","permissive reading decodes","permissive reading returned nothing for real files")
fixed("C09","forget blocks of an unsuccessful","a failed grammar attempt in auto mode left blocks behind")

fixed("C10","ChangeItemOrder accepts loop","ChangeItemOrder failed for loop numbers")
fixed("C10","AddLoopName refuses unlisted","AddLoopName changed blocks wrongly for values of the wrong kind and kept emptied loops")
fixed("C10","CreateLoop places the loop","CreateLoop put the loop elsewhere than asked")
fixed("C10","datanames are caseless in loop","mixed-case datanames were not found in loop blocks (also C11)")
fixed("C11","RemoveKeyedPacket works","RemoveKeyedPacket failed on loops read from files")
fixed("C11","AddPacket leaves the loop","a refused AddPacket left columns of different lengths")
fixed("C12","hidden save frames can be","hidden save frames could not be deleted or renamed")
fixed("C12","block collections made from","sub-collections lacked block order, grammar and character set and could not be written")
fixed("C12","merge_fast renames a block without","merging a file holding a frame of the name of a block failed")
fixed("C12","no second block of the same","a block could be added twice after another was renamed")
fixed("C12","the new key of a renamed","merging could overwrite a block having an equal key")
fixed("C13","copies of blocks and files are","copies shared loops and values, or lacked save frames")
fixed("C14","a refused strict merge","a refused strict merge had already changed the block")
fixed("C14","replacing merge keeps the","replacing merge lost the match attributes and left looped items twice")
fixed("C14","replacing merge of block coll","replacing merge of files failed on the blocks to replace")
fixed("C14","dictionary identification blocks","the identification block was merged like any other")
fixed("C14","merge_fast keeps to the scoping","merge_fast showed hidden frames and listed replaced blocks twice")
fixed("C14","merging pairs match attributes","with dictionary scoping or hidden frames the wrong block was replaced")
fixed("C04","no padding before line","padding before a line break made lines longer than the maximum")
fixed("C15","values can start in the column","a value directly after its name was moved away from the column of the template")
fixed("C15","triple quotes asked for","values holding or ending in quotes were written in triple quotes and could not be read back")
fixed("C15","templates may contain names","template names with brackets raised an error and names sharing a beginning took the wrong layout")
fixed("C19","dREL methods for loop items give","methods of loop items gave values for wrong packets or failed when conditional items were missing")
fixed("C19","dictionary aliases are found","aliases with capital letters were not found")
fixed("C19","unknown values take defaults","unknown values were removed from the block when they could not be derived, and took no defaults")
fixed("C19","categories are caseless in dREL","categories written in another case in methods were not found")
fixed("C19","packets of a category are counted","derivation failed when an unrelated item of the category had no value or stood under an alias")
fixed("C19","a packet can be obtained","keyed access failed when an unrelated item of the category had no value")
fixed("C19","attributes of keyed packets","items of keyed packets present under an alias were not found")
fixed("C20","validation does not remove items","validation removed items from the file validated")
fixed("C20","loops mixing categories of DDL1","loops mixing categories were valid")
fixed("C20","the mandatory items of a DDL1 category","mandatory items of a category were not required in loops")
fixed("C20","uncertainties are checked for numeric items with type constructs","uncertainties were accepted for numb items with a type construct and in DDL2")
fixed("C20","an enumeration may consist of a single","an enumeration given as a single unlooped value was split into characters")
fixed("C20","loops without any item of a referenced group","a loop lacking the items of _list_reference was valid")
fixed("C20","combinations of values are compared exactly","different combinations of values were taken to be the same")
fixed("C20","alternative datanames are found whatever","alternates spelled in another case were not found")
fixed("C20","the whole value has to match alternatives","a value starting with one alternative of a type construct was valid")
fixed("C20","numbers may have a plus sign","+1.5 was not a number")
fixed("C20","validation results can be asked about whole files","ValidationResult methods failed without a block name")
fixed("C20","AddCifItem does not split single values","AddCifItem checked single values character by character")
fixed("C20","blocks containing items that are not in the dictionary","ValidCifBlock refused undefined items")
fixed("C20","items can be removed from validated blocks","RemoveCifItem failed")
fixed("C20","loops can be added to validated blocks","AddToLoop and AddCifItem failed for loops")
fixed("C20","all children of an item are checked when","only the last child was checked")
fixed("C20","parents and children are found in added loops","a parent in the same added loop was not found when its name was in another case")
fixed("C20","uncertainties are checked for DDLm","DDLm uncertainty check failed with an exception or never applied")
fixed("C20","looped categories can be nested more than one","dictionaries with categories nested more than one deep could not be read")
fixed("C20","loops of a child category can be identified","a loop of a child category with its own key was not valid")
fixed("C20","a reference dictionary need not restrict","a reference dictionary without all scopes made the audit fail")
fixed("C20","validation reports cover all DDLm tests","validate_report failed for looped items of unlooped categories")
fixed("C06","scanner does not take reserved words","the compiled scanner accepted data_, save_, stop_ and global_ words as data values")
fixed("C06","does not split or drop characters","the compiled scanner split words holding characters outside ASCII into pieces and ended at a zero byte")
fixed("C06","text that cannot be encoded","text with unpaired surrogates crashed the interpreter in the compiled scanner")
fixed("C06","unfinished text field for a value","the compiled scanner took a semicolon opening the last, unterminated line of the text as a data value")
fixed("C21","report the position of tokens no alternative","the parser reported the start of the file for tokens that no alternative matches")
fixed("C21","tokens matched by more than one clause","yapps reported only some of the tokens matched by several clauses")
fixed("C21","reported with their line and fail","yapps reported errors in grammars without their place or not at all, and succeeded")
fixed("C21","choices that nothing can match","the parser written for a choice without tokens was not valid Python")
fixed("C21","decide by what can follow in each place","loops and options ended on tokens that may follow the rule elsewhere, or went on where they could not")
fixed("C22","names_in_cat(names_only=True)","names_in_cat(names_only=True) returned sub categories")
fixed("C22","editing a dictionary left its tables","edits left stale entries in the definition, category and block tables, and definitions unlocked")
fixed("C22","frames are not named as their definitions","frames named otherwise than their definitions, and nested outside categories, were lost or misplaced in written dictionaries")
fixed("C23","did not find imported attributes of a definition","'in' did not find attributes imported on demand")
fixed("C23","full imports of categories failed","full import of a category that is not a head failed with IndexError; nested references on demand failed with AttributeError; definitions imported on demand were found only in their own case")
fixed("C24","did not list dictionaries found in a registry","with dictionaries found in a registry the program failed or listed no dictionaries, and without arguments it failed")
fixed("C25","exponent after a standard uncertainty was lost","1.5(2)e4 was converted to 1.5; integers with an uncertainty raised ValueError")
fixed("C25","were converted as decimal numbers","0x1F and the like raised ValueError, 10 in base 16 became 10")
fixed("C25","as defined by DDLm could not be converted","Imag values and 1+j2 raised errors")
fixed("C25","with container Multiple or without","access to such items raised TypeError or KeyError")
fixed("C25","could be converted only for some dimensions","lists without dimension, of dimension 1, of several dimensions, with the dimension as text or with nested contents")
fixed("C25","arrays holding uncertainties","arrays with uncertainties, or of Count or Index, raised ValueError")
fixed("C25","arrays of one element and default lists","derived one element arrays were stored as numbers, default lists as columns of a loop")
fixed("C26","order of blocks in collections changed","keys() and first_block() of collections with all frames visible followed the order of a set")
fixed("C26","order of problems reported and of definitions","rows of validation reports and lists of definitions followed the order of sets")
fixed("C16","parts of different eigenvectors","Eigen() paired eigenvalues with rows of the matrix of eigenvectors")
fixed("C17","could not be appended to an array","++= of a number raised AttributeError once the list had been changed with += or -=")
fixed("C27","read the line number beyond its variable","yylineno (int) was declared as size_t")
fixed("C27","read its input after it was freed","prepare() kept the address of the characters, not the string")
fixed("C27","could not be used after its memory was freed","cleanup() raised SystemError, and the next prepare() freed the same memory again")
fixed("C28","definitions of several items could not be used","AttributeError for definitions naming several items (as all of mmCIF's parents do); links and single-row loops were never normalised")
fixed("C28","written in another case were reported as missing","validate_dependents compared names as written")
fixed("C28","range that is not in a loop was taken apart","validate_enum_range went through the characters of the bounds")
fixed("C28","implicit items of a DDL2 key","Compound keys with an implicit item (the usual entry_id) failed validate_uniqueness")
fixed("C29","left its save frames visible as blocks","Validate(isdic=True) changed the scoping of the file, so that keys() and output differed afterwards")
fixed("C29","were not checked without dREL","CifDic(do_dREL=False) never read the table of mandatory and prohibited attributes")
fixed("C29","DDL2 dictionaries could not be validated","Validate(isdic=True) against a DDL2 dictionary assigned lists as blocks of the file")
fixed("C30","named the last value of an earlier file","a syntax error at the start of a file reported the last value of the file read before as its place")
fixed("C31","did not run under Python 3","output_asciidoc and star2_to_cif2 used Python 2 syntax and names the package no longer has")
fixed("C31","keys named in another case","a key written in another case in _category_key.name was not marked as a key")
fixed("C31","categories without text that import dictionaries","a category that imports a dictionary and has no description ended in KeyError")
fixed("C19","defaults indexed by another item failed","a default indexed by a number or a text, by a table of one entry, or for a value that is not in the table ended in UnboundLocalError or ValueError")
fixed("C32","shared item was missing from the data","an item shared with the source but missing from the data received the values of another item or ended in UnboundLocalError")
fixed("C32","filters were written in another case","filters and names of categories were compared with regard to case")
fixed("C32","repeated keys or failed","a category filled from several constructed ones had keys twice, or columns of different lengths (AssertionError), or ended in ValueError when there was no data")
json.dump({"findings":F},open("/verif/known_findings.json","w"),indent=1)
