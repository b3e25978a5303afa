#!/usr/bin/env python3
"""writes /verif/known_findings.json from the table below; commit hashes are looked up by the subject of the fix commit in /repo"""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict((l.split(' ', 1)[1], l.split(' ', 1)[0]) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines())
FIXED = [
 ('C01', 'fix: translate CRLF line ends that straddle the line reader\'s buffer', 'a CR LF pair split by the 1024 byte buffer of the line reader left a CR in the line'),
 ('C01', 'fix: read inline files of unicode makefiles through the text stream', 'inline files of UTF-8/UTF-16 makefiles were read from the raw file behind the text stream, so makefile lines were lost or read twice'),
 ('C02', 'fix: recognize a comment that directly follows an escaped hash', 'in "A^##c" the second # was not recognised as a comment'),
 ('C02', 'fix: remove the escape character of ^# in every dependency line', 'the caret of ^# stayed in dependency lines without a comment'),
 ('C02', 'fix: ignore comments in dot directives and after inference rule heads', 'comments after .SUFFIXES and inference rule heads were taken as names'),
 ('C02', 'fix: accept a comment directly after the name of a preprocessing directive', '"!ENDIF#c" was not recognised as a directive'),
 ('C03', 'fix: remove escape characters on the left side of a macro substitution', 'escape characters left of = in $(A:x=y) were kept, those on the right removed'),
 ('C04', 'fix: pass environment variables redefined in the makefile to commands', 'a makefile definition of an inherited environment variable did not reach the environment of commands'),
 ('C05', 'fix: do not require valid macro invocations in inactive conditional branches', 'an invalid macro invocation in the condition of a nested !IF in a skipped branch was an error'),
 ('C05', 'fix: reject !ELSE directives after the !ELSE of a conditional', 'a second !ELSE was accepted and activated a skipped branch'),
 ('C06', 'fix: do not crash on remainder by zero and overflowing division in expressions', '"1 % 0" and "(-2147483647-1)/(-1)" killed jom with SIGFPE'),
 ('C06', 'fix: reject malformed expressions and end exist() at its closing parenthesis', 'unknown characters in expressions were echoed and ignored; exist(a)||exist(b) was read as one file name'),
 ('C25', 'fix: apply all synchronization points of .SYNC', 'in "a b .SYNC .SYNC c" c was not ordered after a and b; a .SYNC dependent without description block dropped other synchronisation points'),
 ('C08', 'fix: detect cycles through targets that are defined with the makefile\'s directory', 'a cycle through targets that are defined with and used without the directory of the makefile was not reported; jom ended with success without building'),
 ('C10', 'fix: do not start further commands of running targets after a failure', 'after a failure the remaining commands of other running targets were still started, and jom ended without waiting for them'),
 ('C10', 'fix: await running commands and return job tokens when preparing a command fails', 'when an inline file could not be written jom ended while commands were running and kept a job token'),
 ('C20', 'fix: do not return a job token too many when the build is aborted', 'a build aborted while waiting for a job token returned one token more than it had obtained'),
 ('C21', 'fix: resolve the argument of cd against the directory chosen by preceding cd commands', '"cd a" followed by "cd b" or "cd .." was resolved against the directory of jom instead of the directory of the command sequence'),
 ('C13', 'fix: do not crash on commands with ! of targets without dependents', 'a target whose only commands have the ! prefix and that has no dependents made jom read past the end of its command list'),
 ('C13', 'fix: notice the end of commands that exit with code 259', 'jom polled forever for the end of a command that had exited with code 259 (STILL_ACTIVE)'),
 ('C13', 'fix: do not tolerate crashes because of a numeric exit code tolerance', 'a crashed command with a tolerance of 2 or more counted as successful'),
 ('C14', 'fix: consume exactly the file name macro invocation that is expanded', '$(@) swallowed the character after it, $(?R) of an empty list left a parenthesis, and a macro directly after an empty one was not expanded'),
 ('C14', 'fix: cut file name extensions in the last path component only', '$* and the R modifier turned dir.d/file into dir'),
 ('C15', "fix: replace << at the start of a command by the inline file's name", 'a command that starts with << was run without replacing <<'),
 ('C15', 'fix: expand macros in the names of inline files of inference rules', 'inline file names of inference rules were used literally, e.g. a file named $*.lrf shared by all targets'),
 ('C12', 'fix: let the targets of a batch wait for the command that builds them', 'what depends on a target of a batch rule could be built before the batch command ran or although it failed, or was not rebuilt afterwards'),
 ('C16', 'fix: export the number of jobs that is in effect in MAKEFLAGS', 'MAKEFLAGS passed to child processes did not hold the number of jobs in effect'),
 ('C16', 'fix: do not export the options D, E, B, U, G as /DEBUG', 'the single letter options D, E, B, U, G were exported in MAKEFLAGS so that a child reads them as a long option /DEBUG'),
 ('C16', 'fix: do not access the first characters of empty arguments', 'empty command line arguments were read past their end'),
 ('C16', 'fix: pass the options that are in effect in an inherited MAKEFLAGS to child processes', 'an inherited MAKEFLAGS was passed on without the options given on the command line'),
 ('C17', 'fix: keep quoted blanks, empty quotes and unclosed text when splitting command lines', 'V="" became V=", blanks at the ends of quoted texts and the text after an unclosed quotation mark were lost'),
 ('C19', 'fix: print the output of one running command at a time directly', 'after the command that was printed directly had ended, all other running commands were printed directly, so that their output was mixed'),
 ('C23', 'fix: ignore blanks around the file name of an old style include directive', 'blanks around the file name of an include directive without ! were taken as part of the name, so that the file was not found'),
 ('C24', 'fix: do not read past the end of text that ends with a byte order mark character', 'dependents or commands of a UTF-8 makefile that end with the character U+FEFF or U+FEFF and ( made jom read past the end of the text'),
 ('C28', 'fix: do not add the directories . and .. as dependents for wildcards', 'the dependent * stood for the directories . and .. too'),
 ('C28', 'fix: keep the path of wildcard matches in a directory that only starts like the one of the makefile', 'in a makefile in /src the pattern /srcb/*.c led to b/x.c instead of /srcb/x.c'),
 ('C28', 'fix: look for wildcard matches in the root directory if the pattern says so', 'the pattern /*.c stood for the files of the working directory'),
 ('C29', 'fix: do not build the targets after dumping the dependency graph', 'with /DUMPGRAPH the targets were built after the graph had been printed'),
 ('C30', 'fix: treat displayed targets as updated in a dry run', 'a dry run did not show the commands of targets that depend on existing targets whose commands it had shown'),
 ('C30', 'fix: apply inference rules to displayed dependents in a dry run', 'a dry run did not show the commands of inference rules whose dependent does not exist yet but is the target of commands shown before'),
 ('C30', 'fix: do not touch inline files in a dry run', 'a dry run created, overwrote and deleted the inline files of the commands'),
 ('C32', 'fix: report mixed : and :: dependents at the line of the dependents', 'mixing : and :: for one target was reported with the line (and, at the end of an included file, the file) that follows the description block'),
 ('C31', 'fix: close the quote around the directory that is entered', 'with /W the line for entering the directory had an opening but no closing quote'),
 ('C21', 'fix: strip white space between command modifiers and command', 'a command with white space after its modifiers (@ cd dir, - set A=b, -1 copy a b) was not recognised as a built-in of jom or of the shell: cd and set had no effect on the following commands'),
 ('C25', 'fix: honour synchronisation points for dependents with file name macros', 'a dependent like $$(@B).x behind .SYNC did not wait for the dependents before the synchronisation point'),
 ('C29', 'fix: end the build properly if a dependent does not exist', 'with several goals, a missing dependent of a later goal ended jom at once and left the inline files of the goals before on the disk'),
 ('C15', 'fix: remove inline files before the next target can use their names', 'with two targets that use the same inline file name one after another, the file of the second one was removed while its commands ran, or although it was to be kept'),
 ('C30', 'fix: show updated dependents for $? in a dry run', 'with /N, $? left out dependents that the commands displayed before would have updated'),
]
KNOWN = [
 ('C19-end-before-output-is-read', 'C19', 'output that a command has written is lost if the end of the command is noticed before the completion port thread has read it', 'the output missing is exactly the tail that was still unread in the pipe or completion queue when the end of the process was handled (label known:C19-end-before-output-is-read)'),
]
def build():
    f = []
    for i, (p, s, what) in enumerate(FIXED):
        assert s in log, s
        f.append({'id': '%s-fixed-%d' % (p, i), 'property': p, 'status': 'fixed', 'commit': log[s], 'what': what, 'line': 'fixed: property=%s %s %s' % (p, log[s], what)})
    for i, p, what, inp in KNOWN: f.append({'id': i, 'property': p, 'status': 'known', 'what': what, 'identified_by': inp})
    for s in log:
        if s.startswith('fix:') and s not in [x[1] for x in FIXED]: print('NOT RECORDED', s)
    return {'findings': f}
json.dump(build(), open(V + '/known_findings.json', 'w'), indent=1); print('ok')
