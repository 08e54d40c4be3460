#!/usr/bin/perl
# Dumps Unicode 15.0 property ranges shipped with Perl 5.38 into refdata/*.txt
# (run once; the output is committed).  usage: perl dump.pl OUTDIR
use strict; use warnings; use Unicode::UCD qw(prop_invmap prop_invlist);
my $dir = shift or die;
for my $p (qw(GCB WB Lb Ea Bc Age InPC InSC Jt Gc Bpt)) {
  my ($list,$map,$fmt,$def)=prop_invmap($p);
  open my $o,'>',"$dir/$p.txt" or die;
  for my $i (0..$#$list) {
    my $end = $i<$#$list ? $list->[$i+1]-1 : 0x10FFFF;
    next if $list->[$i]>0x10FFFF;
    printf $o "%X %X %s\n",$list->[$i],$end,(ref $map->[$i] ? "?" : $map->[$i]);
  }
}
{ my ($list,$map,$fmt,$def)=prop_invmap("Bpb"); print STDERR "bpb fmt $fmt def $def\n";
  open my $o,'>',"$dir/Bpb.txt" or die;
  for my $i (0..$#$list) { my $m=$map->[$i]; next if !defined $m or "$m" eq "$def" ; 
    my $end = $i<$#$list ? $list->[$i+1]-1 : 0x10FFFF;
    for my $c ($list->[$i]..$end) { my $v = $m =~ /^-?\d+$/ ? $m + ($c-$list->[$i]) : $m; printf $o "%X %s\n",$c,$v=~/^\d+$/?sprintf("%X",$v):$v } } }
for my $p (qw(Emoji EPres EMod EBase EComp ExtPict)) {
  my @l = eval { prop_invlist($p) }; unless(@l){ print STDERR "no $p\n"; next }
  open my $o,'>',"$dir/$p.txt" or die;
  for (my $i=0;$i<@l;$i+=2){ my $e=$i+1<@l?$l[$i+1]-1:0x10FFFF; printf $o "%X %X Y\n",$l[$i],$e }
}
