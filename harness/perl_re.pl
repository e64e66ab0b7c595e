#!/usr/bin/perl
# Oracle for C04: reads "op hexliteral hextext hextext ..." lines, answers "E" or one digit per text.
use strict;
no warnings;
binmode(STDIN); binmode(STDOUT); $| = 1;
while (my $line = <STDIN>) {
    chomp $line;
    my ($op, $lit, @texts) = split / /, $line;
    $lit = pack("H*", $lit); utf8::decode($lit);
    my $code = eval "use utf8; no strict; no warnings; sub { my \$t = shift; (\$t $op $lit) ? 1 : 0 }";
    if (!$code) { print "E\n"; next; }
    my $out = "";
    my $ok = eval {
        local $SIG{ALRM} = sub { die "timeout" };
        alarm 5;
        for my $t (@texts) {
            my $x = pack("H*", substr($t, 1)); utf8::decode($x);
            $out .= $code->($x);
        }
        alarm 0;
        1;
    };
    alarm 0;
    print $ok ? "$out\n" : "E\n";
}
