"""The type loops that the functions of the package have: the types of arguments that users can rely on (checked by P06).
More loops are fine."""
T = {
    "abs_squared": "f->f d->d g->g F->f D->d G->g".split(),
    "abssq": "f->f d->d g->g F->f D->d G->g".split(),
    "all_same": "b->? B->? h->? H->? i->? I->? l->? L->? f->? d->? g->? O->?".split(),
    "argfirst": "bbb->l BbB->l hbh->l HbH->l ibi->l IbI->l lbl->l LbL->l fbf->l dbd->l gbg->l ObO->l".split(),
    "argmax": "b->l B->l h->l H->l i->l I->l l->l L->l q->l Q->l f->l d->l g->l O->l".split(),
    "argmin": "b->l B->l h->l H->l i->l I->l l->l L->l q->l Q->l f->l d->l g->l O->l".split(),
    "argminmax": "b->l B->l h->l H->l i->l I->l l->l L->l q->l Q->l f->l d->l g->l O->l".split(),
    "backlash": "fff->f ddd->d ggg->g".split(),
    "backlash_sum": "ffff->ff dddd->dd gggg->gg".split(),
    "bincount._bincount": "b->l B->l h->l H->l i->l I->l l->l L->l".split(),
    "bincount._bincountw": "bb->b bB->B bh->h bH->H bi->i bI->I bl->l bL->L bf->f bd->d Bb->b BB->B Bh->h BH->H Bi->i BI->I Bl->l BL->L Bf->f Bd->d hb->b hB->B hh->h hH->H hi->i hI->I hl->l hL->L hf->f hd->d Hb->b HB->B Hh->h HH->H Hi->i HI->I Hl->l HL->L Hf->f Hd->d ib->b iB->B ih->h iH->H ii->i iI->I il->l iL->L if->f id->d Ib->b IB->B Ih->h IH->H Ii->i II->I Il->l IL->L If->f Id->d lb->b lB->B lh->h lH->H li->i lI->I ll->l lL->L lf->f ld->d Lb->b LB->B Lh->h LH->H Li->i LI->I Ll->l LL->L Lf->f Ld->d bF->F bD->D BF->F BD->D hF->F hD->D HF->F HD->D iF->F iD->D IF->F ID->D lF->F lD->D LF->F LD->D".split(),
    "convert_to_base.gufunc": "bb->b BB->B hh->h HH->H ii->i II->I ll->l LL->L".split(),
    "cross2": "ii->i ll->l ff->f dd->d gg->g OO->O".split(),
    "cross3": "ii->i ll->l ff->f dd->d gg->g OO->O".split(),
    "deadzone": "fff->f ddd->d ggg->g".split(),
    "debye1": "f->f d->d".split(),
    "erfcx": "f->f d->d g->g".split(),
    "expint1": "f->f d->d g->g".split(),
    "exponential_ramp": "ff->f dd->d gg->g".split(),
    "fillnan1d": "f->f d->d g->g".split(),
    "first": "bbbb->b BbBB->B hbhh->h HbHH->H ibii->i IbII->I lbll->l LbLL->L fbff->f dbdd->d gbgg->g ObOO->O".split(),
    "gini": "f?->f d?->d g?->g".split(),
    "gmean": "f->f d->d g->g".split(),
    "gmeanw": "ff->f dd->d gg->g".split(),
    "hmean": "f->f d->d g->g".split(),
    "hmeanw": "ff->f dd->d gg->g".split(),
    "hyperbolic_ramp": "ff->f dd->d gg->g".split(),
    "hypot3": "fff->f ddd->d ggg->g".split(),
    "hysteresis_relay": "ffffff->f dddddd->d gggggg->g".split(),
    "inv_yeo_johnson": "ff->f dd->d gg->g".split(),
    "invsmoothstep3": "fffff->f ddddd->d ggggg->g".split(),
    "issnan": "e->? f->? d->?".split(),
    "kbnsum": "f->f d->d g->g".split(),
    "linear_interp1d": "fff->f ddd->d".split(),
    "linearstep": "fffff->f ddddd->d ggggg->g".split(),
    "log1p_doubledouble": "F->F D->D".split(),
    "log1p_theorem4": "F->F D->D".split(),
    "log_logistic": "f->f d->d g->g".split(),
    "logexpint1": "f->f d->d g->g".split(),
    "logfactorial": "i->d l->d".split(),
    "loggamma1p": "f->f d->d".split(),
    "logistic": "f->f d->d g->g".split(),
    "logistic_deriv": "f->f d->d g->g".split(),
    "mad": "f?->f d?->d g?->g".split(),
    "max_argmax": "b->bl B->Bl h->hl H->Hl i->il I->Il l->ll L->Ll q->ql Q->Ql f->fl d->dl g->gl O->Ol".split(),
    "meanvar": "bl->d Bl->d hl->d Hl->d il->d Il->d ll->d Ll->d fl->f dl->d gl->g".split(),
    "min_argmin": "b->bl B->Bl h->hl H->Hl i->il I->Il l->ll L->Ll q->ql Q->Ql f->fl d->dl g->gl O->Ol".split(),
    "minmax": "b->b B->B h->h H->H i->i I->I l->l L->L q->q Q->Q f->f d->d g->g O->O".split(),
    "multivariate_logbeta": "f->f d->d g->g".split(),
    "nan_to_num": "ff->f dd->d gg->g".split(),
    "next_greater": "f->f d->d g->g".split(),
    "next_less": "f->f d->d g->g".split(),
    "nextn_greater.gufunc": "f->f d->d g->g".split(),
    "nextn_less.gufunc": "f->f d->d g->g".split(),
    "normal.cdf": "f->f d->d g->g".split(),
    "normal.logcdf": "f->f d->d g->g".split(),
    "normal.logsf": "f->f d->d g->g".split(),
    "normal.sf": "f->f d->d g->g".split(),
    "one_hot.gufunc": "l->l".split(),
    "ordered": "bb->? Bb->? hb->? Hb->? ib->? Ib->? lb->? Lb->? fb->? db->? gb->? Ob->?".split(),
    "peaktopeak": "b->B B->B h->H H->H i->I I->I l->L L->L f->f d->d g->g O->O".split(),
    "pearson_corr": "bb->d BB->d hh->d HH->d ii->d II->d ll->d LL->d ff->f dd->d gg->g".split(),
    "percentileofscore": "bbl->d BBl->d hhl->d HHl->d iil->d IIl->d lll->d LLl->d ffl->d ddl->d".split(),
    "pmean": "ff->f dd->d gg->g".split(),
    "pmeanw": "fff->f ddd->d ggg->g".split(),
    "pow1pm1": "ff->f dd->d gg->g".split(),
    "rmad": "f?->f d?->d g?->g".split(),
    "rms": "f->f d->d g->g F->f D->d G->g".split(),
    "searchsortedl": "bb->l BB->l hh->l HH->l ii->l II->l ll->l LL->l ee->l ff->l dd->l gg->l OO->l".split(),
    "searchsortedr": "bb->l BB->l hh->l HH->l ii->l II->l ll->l LL->l ee->l ff->l dd->l gg->l OO->l".split(),
    "semivar.exponential": "ffff->f dddd->d gggg->g".split(),
    "semivar.linear": "ffff->f dddd->d gggg->g".split(),
    "semivar.parabolic": "ffff->f dddd->d gggg->g".split(),
    "semivar.spherical": "ffff->f dddd->d gggg->g".split(),
    "smoothstep3": "fffff->f ddddd->d ggggg->g".split(),
    "smoothstep5": "fffff->f ddddd->d ggggg->g".split(),
    "softmax": "f->f d->d g->g".split(),
    "sosfilter": "ff->f dd->d gg->g".split(),
    "sosfilter_ic": "fff->ff ddd->dd ggg->gg".split(),
    "sosfilter_ic_contig": "fff->ff ddd->dd ggg->gg".split(),
    "step": "fffff->f ddddd->d ggggg->g".split(),
    "swish": "ff->f dd->d gg->g".split(),
    "trapezoid_pulse": "ffffff->f dddddd->d gggggg->g".split(),
    "tri_area": "f->f d->d g->g".split(),
    "tri_area_indexed": "fl->f dl->d gl->g".split(),
    "unwrap": "ff->f dd->d gg->g".split(),
    "vdot": "ff->f dd->d gg->g".split(),
    "vnorm": "ff->f dd->d gg->g Ff->f Dd->d Gg->g".split(),
    "wjaccard": "bb->d BB->d hh->d HH->d ii->d II->d ll->d LL->d ff->f dd->d".split(),
    "yeo_johnson": "ff->f dd->d gg->g".split(),
}
